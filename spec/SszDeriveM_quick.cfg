SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxFields = 2
  MaxVars = 3
INVARIANTS Decided Structs Enums Emitted
