SPECIFICATION SSpec
CONSTANT MaxSteps = 12
CONSTANT Profile = "folders"
CHECK_DEADLOCK FALSE
