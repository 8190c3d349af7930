SPECIFICATION Spec
VIEW View
INVARIANTS Refines Handed
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  MaxTok = 4
  MaxLen = 6
  MaxOps = 9
  Emit = TRUE
