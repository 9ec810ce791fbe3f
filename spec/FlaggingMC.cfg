SPECIFICATION Spec
CONSTANT MaxLen = 7
INVARIANT SameValue
CHECK_DEADLOCK FALSE
