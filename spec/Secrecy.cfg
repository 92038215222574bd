SPECIFICATION SSpec
CONSTANTS
  Files = {1, 2, 3}
  Modes = {0, 32, 4, 36}
INVARIANT Confined
CHECK_DEADLOCK FALSE
