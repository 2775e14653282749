SPECIFICATION Spec
CONSTANT MaxN = 9
INVARIANTS PathHidden Complete
CHECK_DEADLOCK FALSE
