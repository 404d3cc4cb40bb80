INIT Init
NEXT Next
CONSTANTS
  Sizes = {0, 2}
  MaxItems = 3
  MaxTail = 2
  Slack = 1
INVARIANTS InBounds OffsetsOrdered ErrorIsRight ItemsAreTheTiling Partition Emitted
