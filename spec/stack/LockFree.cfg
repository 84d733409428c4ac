CONSTANTS
  Threads = {t1, t2}
  Nodes = 2
  Ops = 3
  Tags = 64
  Filled = TRUE
SYMMETRY Sym
SPECIFICATION Spec
INVARIANTS NodesKept Refines Good Unique
