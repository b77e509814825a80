SPECIFICATION Spec
CONSTANTS
  N = 3
  Alphabet <- JoinerKinds
  Tailoring = "word"
INVARIANTS RulesAgree WholeText Coarser OneUndecided
CHECK_DEADLOCK FALSE
