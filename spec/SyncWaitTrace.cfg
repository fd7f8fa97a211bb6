CONSTANTS Ops = {0, 1, 2, 3, 4, 5}
          Gates = {0, 1, 2, 3, 4, 5}
SPECIFICATION TSpec
INVARIANTS RetComplete
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
