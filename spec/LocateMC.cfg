SPECIFICATION Spec
CONSTANTS MaxHist = 8
 Broken = FALSE
INVARIANT Fresh
VIEW View
CHECK_DEADLOCK FALSE
