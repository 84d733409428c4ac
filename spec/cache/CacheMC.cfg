CONSTANTS
  Writers = {1, 2}
  Readers = {3, 4}
  Each = 2
SPECIFICATION Spec
INVARIANTS Together Counts
PROPERTIES Forward AllIn
CHECK_DEADLOCK FALSE
