INIT Init
NEXT Next
CONSTANTS N = 3 K = 2 M = 4 Tries = 12
INVARIANTS Conserved ValidAlways Success HopelessFails Complete
CHECK_DEADLOCK FALSE
