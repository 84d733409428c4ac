CONSTANTS
  Strategy = "blocking"
  Events = 3
  Halts = 2
  Runs = 3
SPECIFICATION Spec
INVARIANTS NeverAhead
PROPERTIES HaltEnds AllHandled
CHECK_DEADLOCK FALSE
