CONSTANTS Procs = {0, 1, 2}
          Sizes = {1, 2}
          Total = 3
          MaxClaim = 2
SPECIFICATION Spec
INVARIANTS Disjoint NotReclaimed Capacity PubClaimed ReadOk NoOverwrite
PROPERTIES ClaimGranted WaitResumed
CHECK_DEADLOCK FALSE
