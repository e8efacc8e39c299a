SPECIFICATION Spec
CONSTANTS N = 4 MaxDeps = 1 Emit = FALSE
INVARIANTS Ordering OnceEach Final BlockLaws
CHECK_DEADLOCK FALSE
