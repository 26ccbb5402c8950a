SPECIFICATION Spec
CONSTANTS Max = 5
NSets = 2
INVARIANTS NoOverlap Exact
PROPERTY Terminates
