SPECIFICATION Spec
CONSTANTS M = 4 N = 3
INVARIANTS Correct Masked
CHECK_DEADLOCK FALSE
