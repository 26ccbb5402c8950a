SPECIFICATION Spec
CONSTANTS
  Family = "two"
  MaxLen = 3
  AnyOrder = FALSE
INVARIANTS Automaton Language Covers ErrorAt Ends
