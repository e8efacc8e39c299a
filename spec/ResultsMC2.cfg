SPECIFICATION Spec
CONSTANTS
 MaxStep = 5
 MaxOps = 6
INVARIANTS Kept Listing Histories Visible Last
CHECK_DEADLOCK FALSE
