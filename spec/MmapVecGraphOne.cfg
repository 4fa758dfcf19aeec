SPECIFICATION Spec
VIEW StateOf
ACTION_CONSTRAINT Emit
INVARIANTS Exclusive TmpGone
PROPERTIES Persistent
CHECK_DEADLOCK FALSE
CONSTANTS
  NH = 2
  NF = 1
  MaxLen = 2
  Values = {1, 2}
