SPECIFICATION Spec
CONSTANTS
  Family = "nested"
  MaxLen = 3
INVARIANTS Meaning Agrees
