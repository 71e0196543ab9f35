SPECIFICATION GSpec
CONSTANT Writers = {1}
CONSTANT PerWriter = 1
CONSTANT Sizes = {1}
CONSTANT MaxFrames = 6
CHECK_DEADLOCK FALSE
