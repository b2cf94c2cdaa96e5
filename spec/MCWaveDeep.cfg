SPECIFICATION Spec
CONSTANTS N = 4
MaxMsg = 3
INVARIANTS Safe OneReport
CHECK_DEADLOCK FALSE
