SPECIFICATION Spec
CONSTANTS
  Kind = "mem"
  Max = 2
  AccL = 2
  RefL = 3
  Profile = "cap"
  Depth = 4
INVARIANTS StatusFromHistory GrantedToCurrent AtMostOnce DataFromHistory KeysFromHistory BoundFromHistory
CHECK_DEADLOCK FALSE
