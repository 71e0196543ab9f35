SPECIFICATION Spec
CONSTANT MaxMsgs = 3
CONSTANT MaxDrv = 1
CONSTANT MaxCalls = 4
CONSTANT IdKinds <- MCIdKinds
CONSTANT Scripts <- MCScripts
CONSTANT JunkKinds <- MCJunk
INVARIANT AtMostOnce DoneIsAnswered NotesUnanswered InCallPending StartsInOrder SerialUnique
PROPERTY Once
CHECK_DEADLOCK FALSE
