CONSTANTS Nodes = {1, 2, 3}
          Locs = {11, 12}
SPECIFICATION Spec
INVARIANTS Reported LiveLinks Nested
CHECK_DEADLOCK FALSE
