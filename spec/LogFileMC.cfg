SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Xs = {0, 5}
  MaxHist = 0
INVARIANTS Faithful FaithfulClosed Described RoundTrip Shared Increasing
CHECK_DEADLOCK FALSE
