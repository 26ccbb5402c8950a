SPECIFICATION Spec
CONSTANTS Max = 6
 Shift = 10
INVARIANTS Correct Partial
PROPERTY Ends
