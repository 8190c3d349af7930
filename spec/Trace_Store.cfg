INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Narrow = TRUE
