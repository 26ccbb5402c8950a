SPECIFICATION Spec
CONSTANTS Max = 9
 Shift = 10
INVARIANTS Correct Partial
PROPERTY Ends
