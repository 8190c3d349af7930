INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Narrow = FALSE
CONSTANT CompilerSpans = 3
