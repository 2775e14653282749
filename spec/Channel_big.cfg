SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxInst = 2
  Kinds = {"rot", "spfss", "gilboa", "mpfss", "vole"}
  Printing = FALSE
INVARIANTS InStep NoDeadlock ChannelEmpty
CHECK_DEADLOCK FALSE
