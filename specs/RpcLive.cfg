SPECIFICATION FairSpec
CONSTANT MaxMsgs = 2
CONSTANT MaxDrv = 1
CONSTANT MaxCalls = 3
CONSTANT IdKinds <- MCIdKinds
CONSTANT Scripts <- MCScriptsSmall
CONSTANT JunkKinds <- MCJunk
INVARIANT AtMostOnce DoneIsAnswered
PROPERTY AllAnswered AllStart CallsReturn
CHECK_DEADLOCK FALSE
