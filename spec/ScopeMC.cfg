CONSTANTS Tasks = {0, 1, 2}
          Joins = {0, 1}
SPECIFICATION Spec
INVARIANTS HandleNeedsTask TakenIsDone DelivOnlyUnawaited
PROPERTIES JoinCompletes AwaitCompletes Once JoinedMeansDone
CHECK_DEADLOCK FALSE
