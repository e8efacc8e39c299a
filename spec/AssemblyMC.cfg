SPECIFICATION Spec
CONSTANTS
 NCell = 2
 Chunk = 1
 Rounds = 2
INVARIANT Sound Allocated RowsAgree
CHECK_DEADLOCK FALSE
