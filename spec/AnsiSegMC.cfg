SPECIFICATION Spec
CONSTANTS
  N = 4
INVARIANTS Lossless NoEscSame WellFormedSame Fresh EscAlone
CHECK_DEADLOCK FALSE
