CONSTANTS
  InitStates <- RInit
  Lin <- RLin
  Observe <- RObs
  StuckOK <- RStuck
INIT Init
NEXT Next
CONSTRAINT Accept
POSTCONDITION Report
CHECK_DEADLOCK FALSE
