SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS Within Places
PROPERTIES Stays Goes
CHECK_DEADLOCK FALSE
