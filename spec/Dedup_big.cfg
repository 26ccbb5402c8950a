SPECIFICATION Spec
CONSTANTS Max = 4
NSets = 3
INVARIANTS NoOverlap Exact
PROPERTY Terminates
