CONSTANTS Ids = {0}
          MaxNow = 3
SPECIFICATION Spec
INVARIANTS StoppedForReason AwaitedIsStopped RetIsOver
PROPERTIES TimeoutEnds AwaitEnds TakeEnds NotEarly
CHECK_DEADLOCK FALSE
