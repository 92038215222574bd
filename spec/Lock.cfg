SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Slots = {1, 2}
VIEW view
INVARIANTS TypeOK Available
PROPERTY Exclusive
CHECK_DEADLOCK FALSE
