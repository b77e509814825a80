SPECIFICATION Spec
CONSTANTS
  N = 4
  Alphabet <- PlainKinds
  Tailoring = "phrase"
INVARIANTS RulesAgree WholeText Coarser OneUndecided
CHECK_DEADLOCK FALSE
