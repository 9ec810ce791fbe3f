INIT TInit
NEXT TNext
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
