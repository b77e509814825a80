SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxEmpty = 1
  Slack = 1
  Kinds <- Few
INVARIANTS ChunkingInvisible NothingLost AllWhenNoError Sound MustImpliesMay Prompt
PROPERTY Finishes
CHECK_DEADLOCK FALSE
