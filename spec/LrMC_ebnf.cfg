SPECIFICATION Spec
CONSTANTS
  Family = "ebnf"
  MaxLen = 3
  AnyOrder = FALSE
INVARIANTS Automaton Language Covers ErrorAt Ends
