SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Obeyed Live
PROPERTY Stable
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2, 3, 4}
  Avail = {1}
  Cas = TRUE
  Emit = FALSE
  MaxSteps = 0
