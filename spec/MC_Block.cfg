SPECIFICATION Spec
CONSTANTS
  N = 7
  BUG = FALSE
INVARIANTS LeOk GeOk PrevOk LastOk
CHECK_DEADLOCK FALSE
