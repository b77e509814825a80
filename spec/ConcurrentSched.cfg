SPECIFICATION Spec
CONSTANTS
  N = 3
  S = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
