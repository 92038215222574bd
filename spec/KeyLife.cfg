SPECIFICATION Spec
CONSTANTS
  Cap = 3
  MaxNext = 4
  MaxLost = 5
  Amounts = {0, 1, 2, 3}
  Faults = {"none"}
  Dangers = {}
  Helper = FALSE
VIEW view
CONSTRAINT Bounded
INVARIANT TypeOK
PROPERTIES SignedIsStored Monotone NoLossWithoutReservation
CHECK_DEADLOCK FALSE
