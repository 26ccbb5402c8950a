SPECIFICATION Spec
CONSTANTS Max = 10
INVARIANTS Refines Canonical
