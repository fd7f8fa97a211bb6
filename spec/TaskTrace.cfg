CONSTANTS Tasks = {0, 1, 2, 3, 4, 5}
SPECIFICATION TSpec
INVARIANTS ResultNeedsEnd GoneIsDropped LazyWaits
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
