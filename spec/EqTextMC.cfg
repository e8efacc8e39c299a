SPECIFICATION Spec
CONSTANTS
 MaxLen = 9
 NumIds = {1, 2, 3}
INVARIANT Agree
CHECK_DEADLOCK FALSE
