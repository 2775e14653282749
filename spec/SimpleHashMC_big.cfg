INIT Init
NEXT Next
CONSTANTS N = 5 K = 2 M = 2 T = 4
INVARIANT Correct
CHECK_DEADLOCK FALSE
