SPECIFICATION Spec
CONSTANTS M = 3 S = 2 B = 3
INVARIANTS Correct Hidden
CHECK_DEADLOCK FALSE
