CONSTANTS
  Publishers = {1, 2}
  MaxEvents = 6
SPECIFICATION Spec
INVARIANT InOrder
PROPERTY Arrives
CHECK_DEADLOCK FALSE
