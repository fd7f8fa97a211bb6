CONSTANTS Nodes = {1, 2, 3, 4}
          Locs = {11}
SPECIFICATION Spec
INVARIANTS Reported LiveLinks Nested
CHECK_DEADLOCK FALSE
