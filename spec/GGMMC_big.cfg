INIT Init
NEXT Next
CONSTANTS
  MaxArity = 6
  MaxLeaves = 40
INVARIANTS Correct Secret
CHECK_DEADLOCK FALSE
