SPECIFICATION Spec
CONSTANTS
  NCells = 5
  Keys = {"k", "l"}
  Callers = {"x", "y"}
  Vals = {"1", "2"}
  Mistake = ""
INVARIANTS StoreKeeps CallersKeep
CHECK_DEADLOCK FALSE
