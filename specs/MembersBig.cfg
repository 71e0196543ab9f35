SPECIFICATION MSpec
CONSTANTS
  Types <- FourTypes
  Static = {FALSE}
INVARIANTS Agrees Once
CHECK_DEADLOCK FALSE
