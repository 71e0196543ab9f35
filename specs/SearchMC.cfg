SPECIFICATION Spec
CONSTANTS Syms = {1, 2}
 Limit = 3
 MaxLen = 3
INVARIANT Answered NotLazy
CHECK_DEADLOCK FALSE
