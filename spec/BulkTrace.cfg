SPECIFICATION TSpec
INVARIANT OnceEach
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
