INIT Init
NEXT Next
CONSTANT MaxNow = 5
CONSTANT MaxCount = 3
INVARIANT Exact
INVARIANT NotMore
CHECK_DEADLOCK FALSE
