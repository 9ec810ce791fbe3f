INIT Init
NEXT Next
CONSTANT MaxInt = 12
CONSTANT MaxDir = 3
INVARIANT Unique
INVARIANT Share
INVARIANT Divides
CHECK_DEADLOCK FALSE
