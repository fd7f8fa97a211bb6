CONSTANTS Items = {0, 1}
          Tokens = {0}
          Threads = {0, 1, 2}
          Runners = {1, 2}
          MaxNow = 2
SPECIFICATION Spec
INVARIANTS RunByPool QueueOK EnoughRunners NotEarly
PROPERTIES Served JoinReturns JoinNeedsEnd OnceOnly CreateStarts CreateReturns LeaveOnlyEmpty
CHECK_DEADLOCK FALSE
