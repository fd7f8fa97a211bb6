CONSTANTS Slots = {0, 1, 2, 3}
SPECIFICATION TSpec
INVARIANTS OneKind
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
