CONSTANTS
  Producers = {p1, p2, p3}
  Consumers = {c1, c2}
  N = 4
  Batches = {1, 3}
  Claims = 1
INIT Init
NEXT Next
INVARIANTS Unique NoOverwrite Intact
