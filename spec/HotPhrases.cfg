SPECIFICATION Spec
CONSTANTS
  Seg = "phrases"
  N = 4
  Way = "right"
  Joiners = FALSE
INVARIANT Sound
CHECK_DEADLOCK FALSE
