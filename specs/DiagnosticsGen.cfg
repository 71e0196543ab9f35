SPECIFICATION GSpec
CONSTANT MaxSteps = 12
CHECK_DEADLOCK FALSE
