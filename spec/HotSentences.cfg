SPECIFICATION Spec
CONSTANTS
  Seg = "sentences"
  N = 4
  Way = "right"
  Joiners = FALSE
INVARIANT Sound
CHECK_DEADLOCK FALSE
