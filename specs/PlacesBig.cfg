SPECIFICATION PSpec
CONSTANTS Alphabet = {1, 2, 3, 6}
  MaxLen = 5
  MaxMarks = 3
INVARIANTS Exact Outline Selected RoundTrip
CHECK_DEADLOCK FALSE
