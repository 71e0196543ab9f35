SPECIFICATION Spec
CONSTANT Alphabet = {1, 2, 3, 6}
CONSTANT MaxLen = 5
INVARIANT RoundTrip
INVARIANT BeyondLineIsItsEnd
INVARIANT Ordered
INVARIANT LinesCountEndings
CHECK_DEADLOCK FALSE
