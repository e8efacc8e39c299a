SPECIFICATION Spec
CONSTANTS
 Vals = {0, 1}
 HU = 2
 HP = 1
 HS = 1
 MaxStep = 2
INVARIANTS Refines OwnHistory
VIEW View
CHECK_DEADLOCK FALSE
