SPECIFICATION Spec
CONSTANTS
  Cap = 3
  Skips = {1}
  Damages = {"flip"}
  InFlight = {"Sign", "Load", "Close"}
VIEW view
INVARIANT TypeOK
PROPERTY Determined
CHECK_DEADLOCK FALSE
