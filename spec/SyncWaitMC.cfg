CONSTANTS Ops = {0, 1}
          Gates = {0, 1}
SPECIFICATION Spec
INVARIANTS RetComplete
PROPERTIES StartedOnce WaitEnds StartEnds
CHECK_DEADLOCK FALSE
