CONSTANTS
  Pubs = {1, 2}
  Each = 2
  Size = 2
  Controls = 3
SPECIFICATION Spec
INVARIANTS InOrder NoOverwrite Accounted Quiet
PROPERTY Returns EventuallyOut
CHECK_DEADLOCK FALSE
