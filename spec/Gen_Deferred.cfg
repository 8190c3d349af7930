SPECIFICATION Spec
VIEW View
INVARIANTS Refines Handed
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  MaxTok = 3
  MaxLen = 4
  MaxOps = 6
  Emit = TRUE
