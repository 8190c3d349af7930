SPECIFICATION Spec
VIEW View
INVARIANTS NothingMadeUp Laws
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSpans = 5
  Emit = FALSE
