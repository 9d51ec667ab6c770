SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {97, 58, 63, 61, 38, 37, 52, 123, 47, 195, 10}
INVARIANTS RoundTrip ChunkRoundTrip WellFormed AnyCharacters PlainPath
CHECK_DEADLOCK FALSE
