SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Threads = {1, 2}
  Guard = TRUE
  Table = TRUE
  Early = FALSE
  Ignore = FALSE
  Faults = TRUE
  MaxKills = 2
CONSTRAINT Bound
INVARIANTS AtMostOne Mine Available
PROPERTY Refines
CHECK_DEADLOCK FALSE
