SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxThreads = 4
