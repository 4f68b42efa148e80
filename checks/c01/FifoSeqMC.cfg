SPECIFICATION Spec
CONSTANT MaxId = 4
INVARIANT Once
CHECK_DEADLOCK FALSE
