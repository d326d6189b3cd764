SPECIFICATION Spec
CONSTANTS
  N = 3
  Kids = 2
  Gens = 3
  Values = {0, 1, 2}
  Stop = {0, 1}
INVARIANTS Monotone Sound
CHECK_DEADLOCK FALSE
