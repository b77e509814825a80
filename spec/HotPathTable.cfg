SPECIFICATION Spec
CONSTANTS
  Seg = "words"
  N = 3
  Way = "right"
  Joiners = FALSE
INVARIANT Says
CHECK_DEADLOCK FALSE
