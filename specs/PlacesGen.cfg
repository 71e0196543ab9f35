SPECIFICATION GSpec
CONSTANT MaxSteps = 4
CHECK_DEADLOCK FALSE
