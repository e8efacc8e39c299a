SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Xs = {0, 5}
  MaxHist = 0
INVARIANTS Faithful FaithfulClosed Described RoundTrip Shared Increasing
CHECK_DEADLOCK FALSE
