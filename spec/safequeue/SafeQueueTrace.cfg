CONSTANTS
  InitStates <- SQInit
  Lin <- SQLin
  Observe <- SQObs
  StuckOK <- SQStuck
INIT Init
NEXT Next
CONSTRAINT Accept
POSTCONDITION Report
CHECK_DEADLOCK FALSE
