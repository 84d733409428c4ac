CONSTANTS
  Poppers = {a}
  TimedPoppers = {}
  Pushers = {p, q}
  Forcers = {}
  Setter = {s}
  Each = 2
  Cap = 1
  Caps = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS InOrder Exact RoomKept NoLostPop NoLostPush
PROPERTIES PopsReturn PushesReturn
CHECK_DEADLOCK FALSE
