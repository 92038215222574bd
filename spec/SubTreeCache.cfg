SPECIFICATION Spec
CONSTANTS
  Trees = {"root", "a", "b"}
  NSlots = 2
  Bind = {"addr", "key"}
  MaxDamage = 1
  MaxCrash = 1
INVARIANT UsedIsRight
CHECK_DEADLOCK FALSE
