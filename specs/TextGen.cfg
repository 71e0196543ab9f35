SPECIFICATION GSpec
CONSTANT Alphabet = {1}
CONSTANT MaxLen = 1
CONSTANT MaxNotes = 8
CHECK_DEADLOCK FALSE
