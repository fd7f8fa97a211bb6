CONSTANTS Waiters = {0, 1}
          Threads = {0, 1, 2}
SPECIFICATION Spec
PROPERTIES Resumed NotWithout
CHECK_DEADLOCK FALSE
