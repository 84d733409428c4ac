CONSTANTS
  Producers = {p1, p2}
  Consumers = {c1}
  N = 2
  Batches = {1, 2}
  Claims = 2
SPECIFICATION Spec
PROPERTIES Finishes
