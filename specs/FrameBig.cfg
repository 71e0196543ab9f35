SPECIFICATION Spec
CONSTANT Writers = {1,2,3}
CONSTANT PerWriter = 2
CONSTANT Sizes = {1, 2}
INVARIANT ReadsArePrefix AllRead WriterOrder
CHECK_DEADLOCK FALSE
