SPECIFICATION Spec
VIEW StateOf
ACTION_CONSTRAINT Emit
PROPERTIES OthersStay NoNewRows
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 3
  Values = {1, 2}
