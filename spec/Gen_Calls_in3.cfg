SPECIFICATION Spec
INVARIANT Possible
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2, 3}
  Avail = {1}
  MaxSteps = 150
  MaxStops = 3
