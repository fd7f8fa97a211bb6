CONSTANTS Kids0 = {0, 1, 2}
          Groups0 = {0, 1}
SPECIFICATION Spec
INVARIANTS NoEarlyReturn LazyWaits
PROPERTIES AwaitCompletes OnceOnly
CHECK_DEADLOCK FALSE
