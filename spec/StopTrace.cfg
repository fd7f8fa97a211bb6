CONSTANTS Cbs = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}
          Threads = {0, 1, 2, 3}
SPECIFICATION TSpec
INVARIANTS OnlyWhenRequested AllNotified GoneIsQuiet
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
