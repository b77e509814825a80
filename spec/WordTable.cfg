SPECIFICATION Spec
CONSTANTS
  Alphabet <- PlainKinds
  Tailoring = "word"
CHECK_DEADLOCK FALSE
