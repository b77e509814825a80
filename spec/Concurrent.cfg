SPECIFICATION Spec
CONSTANTS
  Workers = {1, 2}
  MaxOps = 3
  Leak = FALSE
INVARIANTS Independent MemoryIntact
PROPERTY OwnStateOnly
CHECK_DEADLOCK FALSE
