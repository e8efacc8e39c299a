SPECIFICATION Spec
CONSTANTS MaxDefs = 2 Emit = FALSE
INVARIANTS TypeOK AllConsistent Algebra
PROPERTY Stable
VIEW View
CHECK_DEADLOCK FALSE
