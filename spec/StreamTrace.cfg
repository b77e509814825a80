SPECIFICATION Spec
CONSTANTS
  Slack = 3
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
