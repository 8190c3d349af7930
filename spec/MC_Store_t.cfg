SPECIFICATION Spec
VIEW View
INVARIANTS Refines CountsExact NothingLost
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  MaxNodes = 5
  MaxLen = 2
  MaxDepth = 2
  MaxOps = 9
  Emit = FALSE
  KeepHist = TRUE
