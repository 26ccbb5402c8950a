SPECIFICATION Spec
CONSTANTS
  Handles = {h1, h2}
  Values = {1, 2}
  Init0 = 2
  MaxCells = 4
  MaxDepth = 3
INVARIANTS Independent Accounting
