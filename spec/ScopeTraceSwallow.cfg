CONSTANTS Tasks = {0, 1, 2, 3, 4, 5}
          Joins = {0, 1, 2, 3}
          AllowSwallow = TRUE
SPECIFICATION TSpec
INVARIANTS HandleNeedsTask TakenIsDone DelivOnlyUnawaited
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
