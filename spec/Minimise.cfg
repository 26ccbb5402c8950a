SPECIFICATION Spec
CONSTANTS N = 3
 NSym = 1
INVARIANTS Partition Preserved
PROPERTY Terminates
