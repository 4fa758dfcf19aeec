SPECIFICATION Spec
VIEW StateOf
ACTION_CONSTRAINT Emit
INVARIANTS Limits NoDuplicates
PROPERTIES PinnedStay EvictedFirst
CHECK_DEADLOCK FALSE
CONSTANTS
  NKeys = 3
  MaxSize = 3
  Entries = 2
  Total = 4
  Single = 2
