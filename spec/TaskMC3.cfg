CONSTANTS Tasks = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS ResultNeedsEnd GoneIsDropped LazyWaits
PROPERTIES AwaitCompletes RunsOnce
CHECK_DEADLOCK FALSE
