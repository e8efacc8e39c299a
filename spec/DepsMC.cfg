SPECIFICATION Spec
CONSTANTS N = 3 MaxDeps = 3 Emit = FALSE
INVARIANTS Ordering OnceEach Final BlockLaws
PROPERTY Ends
CHECK_DEADLOCK FALSE
