SPECIFICATION Spec
CONSTANTS
  N = 4
  Alphabet <- AllKinds
INVARIANTS RulesAgree StartOnly Restartable
CHECK_DEADLOCK FALSE
