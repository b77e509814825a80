SPECIFICATION Spec
CONSTANTS
  N = 5
INVARIANTS Agree Settled Finds
CHECK_DEADLOCK FALSE
