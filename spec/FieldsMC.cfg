INIT Init
NEXT Next
CONSTANT MaxLen = 4
CONSTANT F = {"data", "flags"}
INVARIANT Meaning
INVARIANT Incremental
CHECK_DEADLOCK FALSE
