SPECIFICATION SpecMaps
CONSTANTS
  B = 2
  Width <- W2
  Values = {1, 2}
  Compacting = FALSE
  MaxLen = 1
INVARIANTS Show
CHECK_DEADLOCK FALSE
