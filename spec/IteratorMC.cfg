SPECIFICATION Spec
INVARIANTS InText Token Fresh Bounded
PROPERTIES Reading AtEnd Moves Options Restart
CHECK_DEADLOCK FALSE
