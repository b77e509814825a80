SPECIFICATION Spec
CONSTANTS
  Sources <- Names
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
