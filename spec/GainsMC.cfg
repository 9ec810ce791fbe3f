SPECIFICATION Spec
INVARIANTS InOrder Kept NoneLost Accepts Offsets
PROPERTY Final
CHECK_DEADLOCK FALSE
