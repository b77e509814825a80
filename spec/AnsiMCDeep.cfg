SPECIFICATION Spec
CONSTANTS
  N = 4
  Alphabet <- FewClasses
INVARIANTS Unique Agree Off Own
CHECK_DEADLOCK FALSE
