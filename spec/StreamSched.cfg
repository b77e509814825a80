SPECIFICATION Spec
CONSTANTS
  Units = 4
  MaxEmpty = 2
CHECK_DEADLOCK FALSE
