SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxFields = 3
  MaxVars = 4
INVARIANTS Decided Structs Enums Emitted
