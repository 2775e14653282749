INIT Init
NEXT Next
CONSTANTS N = 4 K = 2 M = 2 T = 3
INVARIANT Correct
CHECK_DEADLOCK FALSE
