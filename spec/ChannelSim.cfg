SPECIFICATION Spec
CONSTANTS
  MaxOps = 8
  MaxInst = 4
  Kinds = {"rot", "spfss", "gilboa", "mpfss"}
  Printing = TRUE
INVARIANTS InStep NoDeadlock ChannelEmpty PrintProgram
CHECK_DEADLOCK FALSE
