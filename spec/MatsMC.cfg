SPECIFICATION Spec
CONSTANTS
 MaxLen = 6
 Keys = {1, 2}
 MaxTime = 2
INVARIANTS FreshData OwnKey Stays Complete ConstIsConst
VIEW View
CHECK_DEADLOCK FALSE
