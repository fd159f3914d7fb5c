SPECIFICATION Spec
CONSTANTS
  NPages = 6
  MaxOps = 2
  Mistake = "nofinal"
INVARIANTS Survives Steady NoLeak
VIEW View
CHECK_DEADLOCK FALSE
