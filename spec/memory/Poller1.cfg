CONSTANTS
  Pubs = {p1, p2}
  Each = 2
  Lim = 2
  Discard = 1
  Controls = 4
SPECIFICATION Spec
INVARIANTS Ordered Accounted NothingLost Bounded Stopped GoneQuiet
PROPERTY Returns
CHECK_DEADLOCK FALSE
