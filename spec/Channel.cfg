SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  MaxInst = 2
  Kinds = {"rot", "spfss", "gilboa", "mpfss", "vole"}
  Printing = FALSE
INVARIANTS InStep NoDeadlock ChannelEmpty
CHECK_DEADLOCK FALSE
