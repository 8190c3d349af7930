INIT Init
NEXT Next
INVARIANTS Found Exact KnownRight Apart
CHECK_DEADLOCK FALSE
CONSTANTS MaxFiles = 3
 MaxText = 2
 Widths = {1, 2, 3}
