SPECIFICATION Spec
CONSTANTS MaxBuf = 9
          Limit = 11
          MaxSeeds = 3
INVARIANTS InOrder Bounded NotEarly
PROPERTY Sticky
CHECK_DEADLOCK FALSE
