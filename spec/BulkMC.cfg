SPECIFICATION Spec
CONSTANT Max = 6
INVARIANT OnceEach
PROPERTY NotWhileClosed
CHECK_DEADLOCK FALSE
