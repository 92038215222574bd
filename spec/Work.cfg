SPECIFICATION Spec
CONSTRAINT Told
CHECK_DEADLOCK FALSE
