SPECIFICATION Spec
CONSTANTS NStates = 2
NSyms = 1
MaxLen = 4
NewlineSym = 1
NewlineState = 1
INVARIANTS Tiles Prefix Complete
PROPERTY Ends
