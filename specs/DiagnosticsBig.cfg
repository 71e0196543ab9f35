SPECIFICATION Spec
CONSTANTS Docs = {1, 2, 3}
  MaxVersion = 3
  Shared = FALSE
  Unchecked = FALSE
INVARIANTS Final Own Fresh
CHECK_DEADLOCK FALSE
