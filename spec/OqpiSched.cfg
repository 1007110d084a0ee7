SPECIFICATION Spec
CONSTANTS
    Stamps = FALSE
VIEW View
INVARIANTS Contracted NobodyStuck Unfinished1 NoLostWakeup DoneClaimed
CHECK_DEADLOCK FALSE
