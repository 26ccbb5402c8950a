SPECIFICATION Spec
CONSTANTS
  Family = "small"
  MaxLen = 3
  Levels = 2
INVARIANTS Reads Agrees Grouped
