CONSTANTS
  Objects = {1, 2, 3}
  Threads = {4, 5, 6}
  Turns = 2
SPECIFICATION Spec
INVARIANTS OnePlace NoUseAfter FinalizedOnce
PROPERTY AllDestroyed
CHECK_DEADLOCK FALSE
