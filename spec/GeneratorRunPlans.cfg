SPECIFICATION Spec
CONSTANTS
  Retries = 0
  MaxFaults = 2
INVARIANTS Allowed Untouched NeverMixed OnlyWhenAll
PROPERTY Ends
CHECK_DEADLOCK FALSE
