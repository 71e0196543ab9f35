SPECIFICATION Spec
CONSTANTS Names = {a, b}
 Max = 5
 Deep = 2
INVARIANT Agree
PROPERTY OnceUsed
CHECK_DEADLOCK FALSE
