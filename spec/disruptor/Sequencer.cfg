CONSTANTS
  Producers = {p1, p2}
  Consumers = {c1, c2}
  N = 2
  Batches = {1, 2}
  Claims = 2
INIT Init
NEXT Next
INVARIANTS Unique NoOverwrite Intact
