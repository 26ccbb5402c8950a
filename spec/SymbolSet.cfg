SPECIFICATION Spec
CONSTANTS Max = 7
INVARIANTS Refines Canonical
