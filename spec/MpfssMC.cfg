SPECIFICATION Spec
CONSTANTS M = 2 S = 3 B = 2
INVARIANTS Correct Hidden
CHECK_DEADLOCK FALSE
