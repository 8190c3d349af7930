SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Obeyed Live
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2}
  Avail = {}
  Cas = TRUE
  Emit = TRUE
  MaxSteps = 40
