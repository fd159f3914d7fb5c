SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Mistake = ""
INVARIANTS GetFromHistory StoreFromHistory
CHECK_DEADLOCK FALSE
