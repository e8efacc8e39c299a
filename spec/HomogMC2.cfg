SPECIFICATION Spec
CONSTANTS
 Names = {1, 2, 3, 4}
 NWorkers = 3
 MaxHist = 0
INVARIANTS Once Same Full NoDeadlock Partition
CHECK_DEADLOCK FALSE
