SPECIFICATION Spec
CONSTANTS
  Family = "ops"
  MaxLen = 5
  Levels = 2
INVARIANTS Reads Agrees Grouped
