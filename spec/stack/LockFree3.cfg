CONSTANTS
  Threads = {t1, t2, t3}
  Nodes = 2
  Ops = 2
  Tags = 64
  Filled = FALSE
SYMMETRY Sym
SPECIFICATION Spec
INVARIANTS NodesKept Refines Good Unique
