SPECIFICATION Spec
CONSTANTS
  Files = {}
  Modes = {}
CONSTRAINT Told
INVARIANT Confined
CHECK_DEADLOCK FALSE
