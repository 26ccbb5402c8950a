SPECIFICATION Spec
CONSTANTS
  N = 4
  Weak = {1, 2}
  States = 4
INVARIANTS Right Lean
