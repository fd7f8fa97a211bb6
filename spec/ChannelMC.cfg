CONSTANTS Senders = {1, 2}
          PerSender = 2
          Sizes = {1, 2}
SPECIFICATION Spec
INVARIANTS Capacity Once HeadOk RecvPrefix PerSenderOrder NoneAfterClose
PROPERTIES Received
CHECK_DEADLOCK FALSE
