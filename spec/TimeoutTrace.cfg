CONSTANTS Ids = {0, 1, 2, 3}
SPECIFICATION TSpec
INVARIANTS StoppedForReason AwaitedIsStopped RetIsOver
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
