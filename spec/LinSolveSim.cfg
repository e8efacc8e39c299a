SPECIFICATION SimSpec
CONSTANTS
  NObj = 3
  NCont = 5
  Formats = {"csr"}
  ForgetKey = TRUE
  MaxHist = 9
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
