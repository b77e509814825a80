SPECIFICATION Spec
CONSTANTS
  N = 4
  Alphabet <- AllClasses
INVARIANTS Unique Agree Off Own
CHECK_DEADLOCK FALSE
