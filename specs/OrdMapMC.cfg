SPECIFICATION Spec
CONSTANT A = 2
CONSTANT MaxKeyLen = 1
CONSTANT Vals = {0, 1}
INVARIANT ScanExact
PROPERTY BatchAtomic
CHECK_DEADLOCK FALSE
