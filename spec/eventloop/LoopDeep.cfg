CONSTANTS
  Pubs = {1, 2}
  Each = 3
  Size = 2
  Controls = 4
SPECIFICATION Spec
INVARIANTS InOrder NoOverwrite Accounted Quiet
CHECK_DEADLOCK FALSE
