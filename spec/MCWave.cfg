SPECIFICATION Spec
CONSTANTS N = 3
MaxMsg = 2
INVARIANTS Safe OneReport
CHECK_DEADLOCK FALSE
