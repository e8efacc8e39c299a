SPECIFICATION Spec
CONSTANTS MaxLen = 60 Emit = FALSE
INVARIANTS TypeOK BuiltOK CellsStay
PROPERTY Requested
VIEW View
CHECK_DEADLOCK FALSE
