SPECIFICATION GSpec
CONSTANTS
  L = 3
  Shortcut = FALSE
CHECK_DEADLOCK FALSE
