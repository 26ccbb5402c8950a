SPECIFICATION Spec
CONSTANTS MaxLen = 5
 K = 4
 Fresh = FALSE
INVARIANTS TypeOK Faithful
