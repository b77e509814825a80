SPECIFICATION Spec
CONSTANTS
  CP = {1}
INVARIANTS Right Done
CHECK_DEADLOCK FALSE
