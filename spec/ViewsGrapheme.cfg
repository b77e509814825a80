SPECIFICATION Spec
CONSTANTS
  N = 3
  Kinds <- Few
  Way = "view"
  Views <- Parts
  Steps = 5
INVARIANTS InText HeldShows
PROPERTIES FromNow Behind OnlyCallerWrites
CHECK_DEADLOCK FALSE
