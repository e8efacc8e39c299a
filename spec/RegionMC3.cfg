SPECIFICATION Spec
CONSTANTS MaxDefs = 3 Emit = FALSE
INVARIANTS TypeOK AllConsistent Algebra
PROPERTY Stable
VIEW View
CHECK_DEADLOCK FALSE
