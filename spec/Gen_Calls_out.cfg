SPECIFICATION Spec
INVARIANT Possible
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2}
  Avail = {}
  MaxSteps = 100
  MaxStops = 3
