CONSTANTS
  Callers = {11, 12}
  Ids = {1, 2, 3, 4, 5, 6}
  Handles = {21, 22, 23}
  Size = 2
  MaxPubs = 4
SPECIFICATION Spec
INVARIANTS Conserved Isolated
PROPERTY Unchanged
CHECK_DEADLOCK FALSE
