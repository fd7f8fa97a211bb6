CONSTANTS Kids0 = {0, 1, 2, 3, 4, 5, 6, 7}
          Groups0 = {0, 1, 2, 3}
SPECIFICATION TSpec
INVARIANTS NoEarlyReturn LazyWaits
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
