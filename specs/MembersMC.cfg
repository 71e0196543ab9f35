SPECIFICATION MSpec
CONSTANTS
  Types <- ThreeTypes
  Static = {FALSE, TRUE}
INVARIANTS Agrees Once
PROPERTY Terminates
CHECK_DEADLOCK FALSE
