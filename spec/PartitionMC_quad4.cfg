SPECIFICATION Spec
CONSTANTS
  Case = "quad"
  NT = 4
  MaxHist = 0
  Corners = TRUE
INVARIANTS Disjoint Owners Own Inners Independent Lossless Symmetric
CHECK_DEADLOCK FALSE
