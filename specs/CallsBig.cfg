SPECIFICATION Spec
CONSTANT MaxLen = 8
INVARIANTS Agree Unmoved Apart
CHECK_DEADLOCK FALSE
