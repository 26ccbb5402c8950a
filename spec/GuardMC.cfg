SPECIFICATION Spec
CONSTANTS
  Family = "one"
  MaxLen = 3
INVARIANTS Meaning Agrees
