CONSTANTS
  InitStates <- SInit
  Lin <- SLin
  Observe <- SObs
  StuckOK <- SStuck
INIT Init
NEXT Next
CONSTRAINT Accept
POSTCONDITION Report
CHECK_DEADLOCK FALSE
