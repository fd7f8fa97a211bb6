CONSTANTS Items = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
          Tokens = {0, 1, 2, 3}
          Threads = {0, 1, 2, 3, 4, 5, 6, 7}
SPECIFICATION TSpec
INVARIANTS RunByPool QueueOK EnoughRunners NotEarly
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
