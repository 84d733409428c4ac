CONSTANTS
  Kind = 2
  MaxSteps = 6
SPECIFICATION Spec
INVARIANTS InOrder OwnEvent OnceOnce UniqueNames SingleOnly CountsRight GoesOn
PROPERTIES CalledAll
CHECK_DEADLOCK FALSE
