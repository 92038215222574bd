SPECIFICATION Spec
CONSTRAINT Told
INVARIANT Done
CHECK_DEADLOCK FALSE
