SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Objects = {33, 34}
  Tasks = 2
  Depth = 7
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Consistent Lives Unique Once
