SPECIFICATION Spec
CONSTANTS
  N = 4
  Ops = 5
  TellHome = TRUE
INVARIANTS AtMostOne Wanted Removed HomeKnows
CHECK_DEADLOCK FALSE
