SPECIFICATION Spec
CONSTANTS
 MaxLen = 11
 NumIds = {2, 3}
INVARIANT Agree
CHECK_DEADLOCK FALSE
