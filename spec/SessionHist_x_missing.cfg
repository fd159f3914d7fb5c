SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Mistake = "missing"
INVARIANTS GetFromHistory StoreFromHistory
CHECK_DEADLOCK FALSE
