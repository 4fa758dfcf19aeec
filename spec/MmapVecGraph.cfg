SPECIFICATION Spec
VIEW StateOf
ACTION_CONSTRAINT Emit
INVARIANTS Exclusive TmpGone
PROPERTIES Persistent
CHECK_DEADLOCK FALSE
CONSTANTS
  NH = 2
  NF = 2
  MaxLen = 1
  Values = {1}
