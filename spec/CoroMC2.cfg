CONSTANTS Inits = {"s", "r"} Trs = {"0", "1", "2"} MaxSt = 2
          Forms = {"a", "t", "A", "z", "Z", "r", "x"}
          Kinds = {"P", "M"}
          Modes = {"s", "d"}
          Throws = {"o", "e"}
SPECIFICATION Spec
INVARIANTS Objects Awaiters Outcome Ends Nested
CHECK_DEADLOCK FALSE
