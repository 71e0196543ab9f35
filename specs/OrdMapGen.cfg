SPECIFICATION GSpec
CONSTANT A = 4
CONSTANT MaxKeyLen = 4
CONSTANT Vals = {0, 1, 2, 3}
CONSTANT MaxOps = 40
CHECK_DEADLOCK FALSE
