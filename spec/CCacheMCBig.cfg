SPECIFICATION Spec
INVARIANTS OnceAtATime NotWhileCached OwnValue
PROPERTIES EveryRequestEnds
CONSTANTS
  Threads = {1, 2, 3}
  NKeys = 2
  MaxOps = 1
  Entries = 1
