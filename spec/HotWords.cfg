SPECIFICATION Spec
CONSTANTS
  Seg = "words"
  N = 4
  Way = "right"
  Joiners = FALSE
INVARIANT Sound
CHECK_DEADLOCK FALSE
