SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  Depth = 6
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Consistent OneOwner RefersToLaunch
