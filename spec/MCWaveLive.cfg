SPECIFICATION Spec
CONSTANTS N = 2
MaxMsg = 1
INVARIANTS Safe OneReport
PROPERTY Live
CHECK_DEADLOCK FALSE
