CONSTANTS
  Threads = {1, 2}
  Tags = {1, 2, 3}
  Ids = 2
  MaxReplies = 3
SPECIFICATION Spec
INVARIANTS OnceAtMost OpenOnce NotCalledWhileOpen NoDeadlock
CHECK_DEADLOCK FALSE
