SPECIFICATION GSpec
CONSTANTS
  L = 3
  Shortcut = TRUE
CHECK_DEADLOCK FALSE
