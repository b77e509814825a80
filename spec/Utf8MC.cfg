SPECIFICATION Spec
CONSTANTS
  N = 4
INVARIANTS Agree
CHECK_DEADLOCK FALSE
