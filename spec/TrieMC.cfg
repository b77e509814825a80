SPECIFICATION Spec
CONSTANTS
  B = 2
  Width <- W2
  Values = {1, 2}
  Compacting = FALSE
  MaxLen = 3
INVARIANTS Right Shared
CHECK_DEADLOCK FALSE
