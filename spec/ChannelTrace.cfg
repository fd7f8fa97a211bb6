SPECIFICATION TSpec
INVARIANTS Capacity Once HeadOk
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
