INIT Init
NEXT Next
VIEW Values
CHECK_DEADLOCK FALSE
CONSTANTS
  Lists = {0, 8, 9}
  Vectors = {0, 8, 9}
  MaxOps = 3
INVARIANTS Refines Observations Pairs
