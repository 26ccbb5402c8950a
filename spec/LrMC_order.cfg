SPECIFICATION Spec
CONSTANTS
  Family = "tiny"
  MaxLen = 3
  AnyOrder = TRUE
INVARIANTS Automaton Language Covers ErrorAt Ends
