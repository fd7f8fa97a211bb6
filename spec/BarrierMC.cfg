CONSTANTS Calls = {0, 1, 2}
          Waiters = {0, 1}
          Threads = {0, 1}
          MaxInit = 1
SPECIFICATION Spec
INVARIANTS OneWaiter NobodyWaitsAtZero ReleasedBySomeone
PROPERTIES Released OnlyAtZero ResumedOnce
CHECK_DEADLOCK FALSE
