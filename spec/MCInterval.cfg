SPECIFICATION Spec
CONSTANT U = 12
INVARIANTS Refines Sorted Whole Compressed
CHECK_DEADLOCK FALSE
