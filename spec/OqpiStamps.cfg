SPECIFICATION Spec
CONSTANTS
    Stamps = TRUE
VIEW View
INVARIANTS Contracted NobodyStuck Unfinished1 NoLostWakeup DoneClaimed
CHECK_DEADLOCK FALSE
