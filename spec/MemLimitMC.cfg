SPECIFICATION Spec
INVARIANTS WithinLimit AllAccounted
CHECK_DEADLOCK FALSE
CONSTANTS
  Limit = 4
  MaxN = 3
  NThreads = 3
  MaxBlocks = 2
