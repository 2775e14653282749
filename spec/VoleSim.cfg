SPECIFICATION Spec
CONSTANTS
  Out <- OutA
  SeedSize <- SeedA
  Masks <- MasksA
  Huge = 1000
  Batches = {1, 3, 4, 6, 7, 10, 11}
  Sizes = {0, 1, 2, 5, 9}
  MaxOps = 7
  Mixed = TRUE
  Printing = TRUE
INVARIANTS InStep OnceOnly StoredFresh Fits PrintHistory
PROPERTIES NeverAgain DeltaStable
CHECK_DEADLOCK FALSE
