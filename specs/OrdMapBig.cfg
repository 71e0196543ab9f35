SPECIFICATION Spec
CONSTANT A = 2
CONSTANT MaxKeyLen = 2
CONSTANT Vals = {0}
INVARIANT ScanExact
PROPERTY BatchAtomic
CHECK_DEADLOCK FALSE
