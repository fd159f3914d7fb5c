SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Mistake = ""
INVARIANTS GetFromHistory StoreFromHistory
CHECK_DEADLOCK FALSE
