SPECIFICATION GSpec
CONSTANT MaxMsgs = 6
CONSTANT MaxDrv = 3
CONSTANT MaxCalls = 20
CONSTANT IdKinds <- GIdKinds
CONSTANT Scripts <- GScripts
CONSTANT JunkKinds <- GJunk
CONSTANT Depth = 24
CHECK_DEADLOCK FALSE
