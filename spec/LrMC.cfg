SPECIFICATION Spec
CONSTANTS
  Family = "one"
  MaxLen = 3
  AnyOrder = FALSE
INVARIANTS Automaton Language Covers ErrorAt Ends
