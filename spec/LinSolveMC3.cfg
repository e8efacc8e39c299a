SPECIFICATION Spec
CONSTANTS
  NObj = 3
  NCont = 3
  Formats = {"csr", "csc"}
  ForgetKey = TRUE
  MaxHist = 0
INVARIANTS NeverOld FactIsKept
CHECK_DEADLOCK FALSE
