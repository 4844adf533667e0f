SPECIFICATION Spec
CONSTANTS
  KNOWN = {"C03-CURRENT"}
  COST = FALSE
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
