SPECIFICATION Spec
CONSTANTS
  MaxUnits = 2
  Failures = {}
  MaxReads = 4
INVARIANT SplitIrrelevant
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
