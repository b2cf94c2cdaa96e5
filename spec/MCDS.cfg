SPECIFICATION Spec
CONSTANTS N = 3
MaxMsg = 3
INVARIANTS Safe Once DSInv
PROPERTY Live
CHECK_DEADLOCK FALSE
