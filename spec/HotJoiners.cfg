SPECIFICATION Spec
CONSTANTS
  Seg = "words"
  N = 3
  Way = "right"
  Joiners = TRUE
INVARIANT Sound
CHECK_DEADLOCK FALSE
