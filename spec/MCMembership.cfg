SPECIFICATION Spec
CONSTANTS
  N = 3
  Ops = 4
  TellHome = TRUE
INVARIANTS AtMostOne Wanted Removed HomeKnows
CHECK_DEADLOCK FALSE
