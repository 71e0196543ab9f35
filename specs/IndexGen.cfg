SPECIFICATION GSpec
CONSTANT MaxSteps = 12
CONSTANT Profile = "edit"
CHECK_DEADLOCK FALSE
