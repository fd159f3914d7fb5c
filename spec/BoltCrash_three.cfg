SPECIFICATION Spec
CONSTANTS
  NPages = 7
  MaxOps = 3
  Mistake = ""
INVARIANTS Survives Steady NoLeak
VIEW View
CHECK_DEADLOCK FALSE
