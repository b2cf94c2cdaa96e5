SPECIFICATION Spec
CONSTANTS
  N = 3
  NMsgs = 2
  Moves = 2
  Overlap = FALSE
  Forget = 1
INVARIANTS AtMostOnce HomeKnows Leads
PROPERTIES Delivered
CHECK_DEADLOCK FALSE
