SPECIFICATION PSpec
CONSTANTS Alphabet = {1, 2, 3, 6}
  MaxLen = 4
  MaxMarks = 2
INVARIANTS Exact Outline Selected RoundTrip
CHECK_DEADLOCK FALSE
