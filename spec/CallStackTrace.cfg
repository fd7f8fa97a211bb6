SPECIFICATION TSpec
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
