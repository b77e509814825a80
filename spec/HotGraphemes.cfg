SPECIFICATION Spec
CONSTANTS
  Seg = "graphemes"
  N = 4
  Way = "right"
  Joiners = FALSE
INVARIANT Sound
CHECK_DEADLOCK FALSE
