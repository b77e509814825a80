SPECIFICATION Spec
CONSTANTS
  N = 5
  Alphabet <- AllKinds
INVARIANTS RulesAgree Restartable OneUndecided
CHECK_DEADLOCK FALSE
