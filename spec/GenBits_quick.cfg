CONSTANTS Lists = {0, 1, 2, 3, 4, 8, 9, 16, 17, 64, 65, 1024, 1025} Vectors = {0, 1, 2, 3, 5, 8, 9, 16, 17, 64, 65, 1024, 1025} Small = {0, 1, 2, 3, 4, 5} Dyn = {8, 16, 24, 64, 72, 1032} Sizes = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 64, 1023, 1024, 2048}
INIT Init
NEXT Next
INVARIANTS TypeOK PairOK ResizeLaw BytesOK Emitted
CHECK_DEADLOCK FALSE
