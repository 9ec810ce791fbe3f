INIT Init
NEXT Next
CONSTANT MaxN = 40
INVARIANT Position
INVARIANT InRange
INVARIANT Ends
CHECK_DEADLOCK FALSE
