CONSTANTS
  Events = {1, 2}
  MaxQ = 3
  MaxSteps = 9
  MaxFails = 1
SPECIFICATION Spec
INVARIANTS State AtRest ToldOnce ActsRight Gone
PROPERTY CallsReturn
CHECK_DEADLOCK FALSE
