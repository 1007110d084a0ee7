SPECIFICATION Spec
VIEW View
INVARIANT NoRace
CHECK_DEADLOCK FALSE
