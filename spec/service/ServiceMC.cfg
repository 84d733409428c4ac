CONSTANTS
  MaxCommands = 4
SPECIFICATION Spec
INVARIANTS Obeys OnlyChanges Alone
PROPERTY Settles
CHECK_DEADLOCK FALSE
