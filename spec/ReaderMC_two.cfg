SPECIFICATION Spec
CONSTANTS
  Family = "two"
  MaxLen = 3
  Levels = 2
INVARIANTS Reads Agrees Grouped
