CONSTANTS
  Files = {"a", "b", "no"}
  Langs = {"L", "M"}
  NoFile = "no"
SPECIFICATION Spec
INVARIANTS ReadOnce MissingOnce Found Refused
PROPERTY Ends
CHECK_DEADLOCK FALSE
