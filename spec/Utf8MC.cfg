SPECIFICATION Spec
CONSTANTS Points = {0, 65, 127, 128, 2047, 2048, 4095, 4096, 55295, 57344, 65535, 65536, 66559, 66560, 131071, 262143, 1048576, 1114111}
MaxLen = 2
INVARIANTS RoundTrip Agrees
PROPERTY Stops
