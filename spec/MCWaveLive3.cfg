SPECIFICATION Spec
CONSTANTS N = 3
MaxMsg = 2
INVARIANTS Safe OneReport
PROPERTY Live
CHECK_DEADLOCK FALSE
