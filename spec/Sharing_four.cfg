SPECIFICATION Spec
CONSTANTS
  NCells = 4
  Keys = {"k", "l"}
  Callers = {"x", "y"}
  Vals = {"1", "2"}
  Mistake = ""
INVARIANTS StoreKeeps CallersKeep
CHECK_DEADLOCK FALSE
