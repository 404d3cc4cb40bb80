CONSTANTS Lists = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 512, 1016, 1024, 1025, 1032, 2048} Vectors = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 512, 1016, 1024, 1025, 1032, 2048} Small = {0, 1, 2, 3, 4, 5, 6, 7} Dyn = {8, 16, 24, 56, 64, 72, 128, 136, 1024, 1032} Sizes = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 64, 1023, 1024, 2048}
INIT Init
NEXT Next
INVARIANTS TypeOK PairOK ResizeLaw BytesOK Emitted
CHECK_DEADLOCK FALSE
