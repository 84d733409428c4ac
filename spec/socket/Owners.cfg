CONSTANTS
  Objs = {1, 2, 3}
  Fds = {3, 4, 5, 6}
  MaxSteps = 7
SPECIFICATION Spec
INVARIANTS OnlyOwner OwnedIsOpen ClosedOnce NothingLeft
CHECK_DEADLOCK FALSE
