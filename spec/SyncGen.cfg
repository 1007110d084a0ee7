SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT TypeOK Bounded OneCreator NameHasCreator
