SPECIFICATION Spec
CONSTANTS
  Sources = {"p", "q"}
  N = 5
  MaxRestarts = 2
INVARIANTS Contiguous Lossless Agreement
PROPERTY Terminates
CHECK_DEADLOCK FALSE
