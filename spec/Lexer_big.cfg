SPECIFICATION Spec
CONSTANTS NStates = 2
NSyms = 2
MaxLen = 5
NewlineSym = 2
NewlineState = 1
INVARIANTS Tiles Prefix Complete
