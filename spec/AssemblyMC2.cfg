SPECIFICATION Spec
CONSTANTS
 NCell = 3
 Chunk = 2
 Rounds = 1
INVARIANT Sound Allocated RowsAgree
CHECK_DEADLOCK FALSE
