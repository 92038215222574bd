SPECIFICATION Spec
CONSTANTS
  PkSlots = {"p"}
  SigSlots = {"g"}
  MaxN = 2
  Vias = {"bin", "into", "text"}
  Seeds = TRUE
VIEW view
INVARIANT TypeOK
PROPERTIES Frame Fresh
CHECK_DEADLOCK FALSE
