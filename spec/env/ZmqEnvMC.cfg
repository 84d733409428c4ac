CONSTANTS
  MaxSets = 4
SPECIFICATION Spec
INVARIANTS Follow
PROPERTY Ends
CHECK_DEADLOCK FALSE
