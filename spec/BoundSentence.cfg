SPECIFICATION BSpec
CONSTANTS
  N = 3
  MaxEmpty = 1
  Slack = 0
  Kinds <- Few
  Max = 5
INVARIANTS Bounded ChunkingInvisible NeverWrong OnlyTooLong EnoughIsEnough
PROPERTY Stops
CHECK_DEADLOCK FALSE
