SPECIFICATION Spec
CONSTANTS
  D = 2
  Th = 1
  Start = 0
  Stop = 3
  NSigners = 2
  Pre = 0
  MaxFaults = 0
  BadReads = 0
  Closes = FALSE
  InitCache = "empty"
  Bugs = {}
INVARIANTS Right Filled NoDeadlock ClosedIsQuiet Unretired Dropped Ready Once Within StaysAhead
CHECK_DEADLOCK FALSE
