INIT Init
NEXT Next
INVARIANTS Found Exact KnownRight Apart
CHECK_DEADLOCK FALSE
CONSTANTS MaxFiles = 4
 MaxText = 3
 Widths = {1, 3}
