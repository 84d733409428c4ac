CONSTANTS
  Subs = {1, 2}
  Events = 4
  Size = 2
SPECIFICATION Spec
INVARIANTS Increasing Published EachOnce NotOverwritten Accounted
PROPERTY EndsNewest
CHECK_DEADLOCK FALSE
