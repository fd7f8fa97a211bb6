CONSTANTS Threads = {0, 1, 2}
          Waiters = {0, 1}
          MaxOps = 5
SPECIFICATION Spec
INVARIANTS NoWaiterWhenSet ReleasedBySomeone
PROPERTIES ResumeOnce AllReleased Settles
CHECK_DEADLOCK FALSE
