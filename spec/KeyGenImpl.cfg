SPECIFICATION Spec
CONSTANTS
  N = 2
  Keys = 2
  Bugs = {}
INVARIANTS NotMadeUp Fresh
CHECK_DEADLOCK FALSE
