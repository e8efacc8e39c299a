SPECIFICATION Spec
CONSTANTS
  Case = "fan"
  NT = 3
  MaxHist = 0
  Corners = TRUE
INVARIANTS Disjoint Owners Own Inners Independent Lossless Symmetric
CHECK_DEADLOCK FALSE
