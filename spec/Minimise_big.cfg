SPECIFICATION Spec
CONSTANTS N = 3
 NSym = 2
INVARIANTS Partition Preserved
