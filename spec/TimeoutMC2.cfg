CONSTANTS Ids = {0, 1}
          MaxNow = 2
SPECIFICATION Spec
INVARIANTS StoppedForReason AwaitedIsStopped RetIsOver
PROPERTIES TimeoutEnds AwaitEnds TakeEnds NotEarly
CHECK_DEADLOCK FALSE
