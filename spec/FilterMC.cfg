SPECIFICATION Spec
CONSTANTS
  N = 4
INVARIANTS Agree Stays Sync
CHECK_DEADLOCK FALSE
