SPECIFICATION Spec
CONSTANTS
 MaxNls = 5
 Steps = {2, 3, 4}
INVARIANTS Refines Prepared History OncePerStep Ordered Reached
CHECK_DEADLOCK FALSE
