CONSTANTS
  Msgs <- MCMsgs
  Buf = 3
  MaxFaults = 3
SPECIFICATION Spec
INVARIANTS Conserved PrefixOfMessages Complete DoneMeansAll
PROPERTY Finishes
CHECK_DEADLOCK FALSE
