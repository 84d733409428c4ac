CONSTANTS
  Topics = {1, 2}
  MaxPubs = 3
  MaxSteps = 5
SPECIFICATION Spec
INVARIANTS Sorted OwnTopics Kept
PROPERTY Drains
CHECK_DEADLOCK FALSE
