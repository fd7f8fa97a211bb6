CONSTANTS Inits = {"s", "r"} Trs = {"0", "2"} MaxSt = 1
          Forms = {"a", "s", "t", "f", "A", "Y", "R", "y", "z", "Z", "r", "x"}
          Kinds = {"P", "L", "M"}
          Modes = {"r", "s", "c", "p", "d"}
          Throws = {"t", "o", "r", "s", "e"}
SPECIFICATION Spec
INVARIANTS Objects Awaiters Outcome Ends Nested
PROPERTIES Returns
CHECK_DEADLOCK FALSE
