SPECIFICATION Spec
CONSTANTS Syms = {1, 2, 3}
 Limit = 3
 MaxLen = 2
INVARIANT Answered NotLazy
CHECK_DEADLOCK FALSE
