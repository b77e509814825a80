SPECIFICATION Spec
CONSTANTS
  B = 2
  Width <- W24
  Values = {1}
  Compacting = FALSE
  MaxLen = 4
INVARIANTS Right Shared
CHECK_DEADLOCK FALSE
