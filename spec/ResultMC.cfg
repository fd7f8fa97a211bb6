CONSTANTS Slots = {0, 1, 2}
          Pay = {1, 2}
SPECIFICATION Spec
INVARIANTS OneKind Faithful
PROPERTIES KindKept
CHECK_DEADLOCK FALSE
