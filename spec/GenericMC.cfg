SPECIFICATION Spec
CONSTANTS
  L = 3
  Shortcut = TRUE
INVARIANTS InText Bounded AllSeen
PROPERTIES Moves Loud Remaining Peek
CHECK_DEADLOCK FALSE
