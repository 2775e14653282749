SPECIFICATION Spec
CONSTANTS M = 5 N = 4
INVARIANTS Correct Masked
CHECK_DEADLOCK FALSE
