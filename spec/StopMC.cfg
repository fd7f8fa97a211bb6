CONSTANTS Cbs = {0, 1}
          Threads = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS OnlyWhenRequested AllNotified GoneIsQuiet
PROPERTIES OneWinner NeverAfterDereg AtMostOnce OpsEnd
CHECK_DEADLOCK FALSE
