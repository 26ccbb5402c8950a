SPECIFICATION Spec
CONSTANTS
  Family = "ops"
  MaxLen = 6
  Levels = 3
INVARIANTS Reads Agrees Grouped
