CONSTANTS
  Callers = {c1, c2}
  Tags = {a, b, o}
  OnceTags = {o}
  MaxEmits = 4
  MaxDepth = 2
SPECIFICATION Spec
INVARIANTS OnceOnce AllCalled InOrder OnceKept
CHECK_DEADLOCK FALSE
