INIT Init
NEXT Next
CONSTANTS N = 4 K = 2 M = 5 Tries = 20
INVARIANTS Conserved ValidAlways Success HopelessFails Complete
CHECK_DEADLOCK FALSE
