INIT Init
NEXT Next
INVARIANTS Linear Constant
CHECK_DEADLOCK FALSE
CONSTANT Upto = 9
