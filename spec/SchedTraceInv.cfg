SPECIFICATION Spec
VIEW View
INVARIANT Accepted
CHECK_DEADLOCK FALSE
