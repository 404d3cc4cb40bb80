SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 11
  Sizes = {1, 3, 24}
  PerItem = {1, 4}
  SlopeOf = {0, 4, 8}
  ConstOf = {0, 5}
INVARIANTS SameBound SameBufBound Bounded BoundedToo ItemsPresent
