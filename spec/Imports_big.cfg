CONSTANTS
  Files = {"a", "b", "no"}
  Langs = {"L", "M", "N"}
  NoFile = "no"
INIT AllInit
NEXT Next
INVARIANTS ReadOnce MissingOnce Found Refused
CHECK_DEADLOCK FALSE
