SPECIFICATION Spec
CONSTANTS
  Out <- OutA
  SeedSize <- SeedA
  Masks <- MasksA
  Huge = 1000
  Batches = {1, 3, 4, 7, 10, 11}
  Sizes = {0, 1, 2, 5, 9}
  MaxOps = 3
  Mixed = FALSE
  Printing = FALSE
INVARIANTS InStep OnceOnly StoredFresh Fits
PROPERTIES NeverAgain DeltaStable AfterFail
CHECK_DEADLOCK FALSE
