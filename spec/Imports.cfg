CONSTANTS
  Files = {"a", "b", "no"}
  Langs = {"L", "M"}
  NoFile = "no"
INIT AllInit
NEXT Next
INVARIANTS ReadOnce MissingOnce Found Refused
CHECK_DEADLOCK FALSE
