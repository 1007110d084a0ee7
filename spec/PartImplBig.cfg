SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxB = 3
  Threads = 3
  Calls = 2
  Firsts <- FirstsDef
INVARIANT Contract Complete
CHECK_DEADLOCK FALSE
