SPECIFICATION Spec
CONSTANTS
  NObj = 2
  NCont = 2
  Formats = {"csr", "csc"}
  ForgetKey = TRUE
  MaxHist = 0
INVARIANTS NeverOld FactIsKept
CHECK_DEADLOCK FALSE
