SPECIFICATION Spec
CONSTANTS N = 3
MaxMsg = 5
INVARIANTS Safe Once DSInv
CHECK_DEADLOCK FALSE
