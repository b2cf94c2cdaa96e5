SPECIFICATION Spec
CONSTANTS Eps = {"a", "b", "c"}
Nodes = {0, 1}
Ids = {1}
INVARIANTS DoneQuiet DoneNested
PROPERTY Final
CHECK_DEADLOCK FALSE
