CONSTANTS
  Names = {1, 2}
  Gens = {1, 2, 3}
  MaxRuns = 2
SPECIFICATION Spec
INVARIANTS Owned OneTaskPerName OneShotOnce NothingAfterDestroy
PROPERTIES StopReturns DestroyEnds Runs
CHECK_DEADLOCK FALSE
