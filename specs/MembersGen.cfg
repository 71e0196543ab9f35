SPECIFICATION GSpec
CONSTANT Worlds = 1
CHECK_DEADLOCK FALSE
