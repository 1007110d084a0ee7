SPECIFICATION FairSpec
CONSTANTS
    Stamps = FALSE
PROPERTIES Ends
CHECK_DEADLOCK FALSE
