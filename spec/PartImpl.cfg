SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxB = 3
  Threads = 2
  Calls = 3
  Firsts <- FirstsDef
INVARIANT Contract Complete
CHECK_DEADLOCK FALSE
