SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxB = 2
  Threads = 2
  Calls = 2
  Firsts <- FirstsDef
INVARIANT Contract Complete
PROPERTY Returns
CHECK_DEADLOCK FALSE
