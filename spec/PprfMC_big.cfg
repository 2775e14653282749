SPECIFICATION Spec
CONSTANT MaxN = 12
INVARIANTS PathHidden Complete
CHECK_DEADLOCK FALSE
