SPECIFICATION Spec
CONSTANTS
  N = 4
  Kinds <- Few
  Views <- Parts
CHECK_DEADLOCK FALSE
