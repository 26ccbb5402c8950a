SPECIFICATION Spec
CONSTANTS MaxLen = 5
 K = 3
INVARIANTS TypeOK Denotes
