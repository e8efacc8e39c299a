SPECIFICATION Spec
CONSTANTS
 MaxNls = 7
 Steps = {2, 3, 4, 5}
INVARIANTS Refines Prepared History OncePerStep Ordered Reached
CHECK_DEADLOCK FALSE
