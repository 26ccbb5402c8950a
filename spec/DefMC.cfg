SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Within Places
PROPERTIES Stays Goes
CHECK_DEADLOCK FALSE
