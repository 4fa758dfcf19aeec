SPECIFICATION Spec
VIEW StateOf
ACTION_CONSTRAINT Emit
INVARIANTS Limits NoDuplicates
PROPERTIES PinnedStay EvictedFirst
CHECK_DEADLOCK FALSE
CONSTANTS
  NKeys = 4
  MaxSize = 3
  Entries = 3
  Total = 5
  Single = 3
