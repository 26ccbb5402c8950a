SPECIFICATION Spec
CONSTANTS MaxLen = 5
 K = 4
 Fresh = TRUE
INVARIANTS TypeOK Faithful
