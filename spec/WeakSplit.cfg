SPECIFICATION Spec
CONSTANTS
  N = 4
  Weak = {1, 2}
  States = 3
INVARIANTS Right Lean
