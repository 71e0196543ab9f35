SPECIFICATION Spec
CONSTANT Alphabet = {1, 2, 3, 6}
CONSTANT MaxLen = 7
INVARIANT RoundTrip
INVARIANT BeyondLineIsItsEnd
INVARIANT Ordered
INVARIANT LinesCountEndings
CHECK_DEADLOCK FALSE
