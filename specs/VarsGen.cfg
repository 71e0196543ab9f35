SPECIFICATION GSpec
CONSTANT MaxSteps = 40
CHECK_DEADLOCK FALSE
