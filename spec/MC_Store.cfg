SPECIFICATION Spec
VIEW View
INVARIANTS Refines CountsExact NothingLost
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  MaxNodes = 4
  MaxLen = 2
  MaxDepth = 2
  MaxOps = 6
  Emit = FALSE
  KeepHist = TRUE
