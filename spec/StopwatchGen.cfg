INIT Init
NEXT Next
INVARIANT Emit
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
