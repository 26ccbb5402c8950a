SPECIFICATION Spec
CONSTANTS MaxLen = 6
 K = 4
INVARIANTS TypeOK Denotes
