SPECIFICATION Spec
CONSTANTS
  N_ = 5
  Symbols <- Small
INVARIANTS Agree OneWord NumericWords Exclusive
CHECK_DEADLOCK FALSE
