INIT Init
NEXT Next
CONSTANTS
  MaxItems = 2
  MaxTail = 2
  Slack = 1
  Colls = {"vec", "set", "bounded1", "picky", "late2"}
INVARIANTS ResultIsSpecified LimitFirst RoomIsPresent NeverMore InBounds Emitted
