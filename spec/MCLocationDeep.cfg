SPECIFICATION Spec
CONSTANTS
  N = 4
  NMsgs = 3
  Moves = 2
  Overlap = FALSE
  Forget = 1
INVARIANTS AtMostOnce HomeKnows Leads
PROPERTIES Delivered
CHECK_DEADLOCK FALSE
