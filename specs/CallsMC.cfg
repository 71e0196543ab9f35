SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS Agree Unmoved Apart
CHECK_DEADLOCK FALSE
