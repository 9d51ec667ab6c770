SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Alphabet = {97, 58, 63, 61, 38, 37, 52, 123, 47}
INVARIANTS RoundTrip ChunkRoundTrip WellFormed AnyCharacters PlainPath
CHECK_DEADLOCK FALSE
