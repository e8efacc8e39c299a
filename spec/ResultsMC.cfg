SPECIFICATION Spec
CONSTANTS
 MaxStep = 3
 MaxOps = 5
INVARIANTS Kept Listing Histories Visible Last
CHECK_DEADLOCK FALSE
