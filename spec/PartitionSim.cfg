SPECIFICATION SimSpec
CONSTANTS
  Case = "bow"
  NT = 2
  MaxHist = 5
  Corners = TRUE
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
