INIT Init
NEXT Next
INVARIANT RoundTrip
INVARIANT Sharp
CHECK_DEADLOCK FALSE
CONSTANT MaxLen = 5
