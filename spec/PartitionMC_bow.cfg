SPECIFICATION Spec
CONSTANTS
  Case = "bow"
  NT = 3
  MaxHist = 0
  Corners = TRUE
INVARIANTS Disjoint Owners Own Inners Independent Lossless Symmetric
CHECK_DEADLOCK FALSE
