SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Caps = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024}
  Alphabet = {0, 1, 2, 3, 4, 8, 16, 32, 64, 127, 128, 129, 255}
  MaxTake = 2
  MaxCap = 13
INVARIANTS Valid Exhausted Reachable Emitted
