INIT Init
NEXT Next
CONSTANTS
  MaxItems = 3
  MaxTail = 2
  Slack = 1
  Colls = {"vec", "bounded3", "late2"}
INVARIANTS ResultIsSpecified LimitFirst RoomIsPresent NeverMore InBounds Emitted
