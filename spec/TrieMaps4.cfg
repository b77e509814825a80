SPECIFICATION SpecMaps
CONSTANTS
  B = 2
  Width <- W24
  Values = {1}
  Compacting = FALSE
  MaxLen = 1
INVARIANTS Show
CHECK_DEADLOCK FALSE
