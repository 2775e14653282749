INIT Init
NEXT Next
CONSTANTS
  MaxArity = 4
  MaxLeaves = 17
INVARIANTS Correct Secret
CHECK_DEADLOCK FALSE
