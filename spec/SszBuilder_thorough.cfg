INIT Init
NEXT Next
CONSTANTS
  Sizes = {0, 2}
  MaxItems = 4
  MaxTail = 1
  Slack = 1
INVARIANTS InBounds OffsetsOrdered ErrorIsRight ItemsAreTheTiling Partition Emitted
