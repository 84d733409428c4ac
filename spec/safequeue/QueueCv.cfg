CONSTANTS
  Poppers = {a, b}
  TimedPoppers = {}
  Pushers = {p, q}
  Forcers = {}
  Setter = {}
  Each = 2
  Cap = 1
  Caps = {1}
SPECIFICATION Spec
INVARIANTS InOrder Exact RoomKept NoLostPop NoLostPush
PROPERTIES PopsReturn PushesReturn
CHECK_DEADLOCK FALSE
