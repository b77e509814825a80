SPECIFICATION Spec
CONSTANTS
  Alphabet <- PlainKinds
  Tailoring = "phrase"
CHECK_DEADLOCK FALSE
