INIT Init
NEXT Next
VIEW Strip
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {0, 1, 2, 3, 4}
  MaxLen = 6
  Big = TRUE
  BytesPerOffset <- OneByte
  OffsetWord <- OneByteWord
  OffsetAt <- OneByteAt
INVARIANTS SameDecoding SameEncoding RunStrings Tabs
