INIT Init
NEXT Next
VIEW Strip
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {0, 1, 2}
  MaxLen = 7
  Big = FALSE
  BytesPerOffset <- OneByte
  OffsetWord <- OneByteWord
  OffsetAt <- OneByteAt
  Base <- LegacyBase
INVARIANTS Exactly Inverts FirstAccepting Values Injective FixedLengthOnly NoTrailing
