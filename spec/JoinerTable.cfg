SPECIFICATION Spec
CONSTANTS
  Alphabet <- JoinerKinds
  Tailoring = "word"
CHECK_DEADLOCK FALSE
