SPECIFICATION Spec
CONSTANTS MaxLen = 7
 K = 4
 Fresh = TRUE
INVARIANTS TypeOK Faithful
