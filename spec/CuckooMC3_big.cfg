INIT Init
NEXT Next
CONSTANTS N = 3 K = 3 M = 4 Tries = 60
INVARIANTS Conserved ValidAlways Success HopelessFails Complete
CHECK_DEADLOCK FALSE
