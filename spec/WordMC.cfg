SPECIFICATION Spec
CONSTANTS
  N = 4
  Alphabet <- PlainKinds
  Tailoring = "word"
INVARIANTS RulesAgree WholeText Coarser OneUndecided
CHECK_DEADLOCK FALSE
