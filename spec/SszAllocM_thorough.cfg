SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 18
  Sizes = {1, 2, 8, 24}
  PerItem = {1, 2, 4, 5}
  SlopeOf = {0, 4, 8}
  ConstOf = {0, 5, 200}
INVARIANTS SameBound SameBufBound Bounded BoundedToo ItemsPresent
