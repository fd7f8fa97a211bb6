CONSTANTS Calls = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20}
          Waiters = {0,1,2,3,4,5}
SPECIFICATION TSpec
INVARIANTS OneWaiter NobodyWaitsAtZero ReleasedBySomeone
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
