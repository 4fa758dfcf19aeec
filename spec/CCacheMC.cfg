SPECIFICATION Spec
INVARIANTS OnceAtATime NotWhileCached OwnValue
PROPERTIES EveryRequestEnds
CONSTANTS
  Threads = {1, 2}
  NKeys = 2
  MaxOps = 2
  Entries = 1
