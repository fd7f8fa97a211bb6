CONSTANTS Threads = {0, 1, 2, 3}
          Waiters = {0, 1, 2, 3, 4, 5, 6, 7}
SPECIFICATION TSpec
INVARIANTS NoWaiterWhenSet ReleasedBySomeone
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
