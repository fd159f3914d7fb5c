SPECIFICATION Spec
CONSTANTS
  Kind = "mem"
  Max = 2
  AccL = 2
  RefL = 3
  Profile = "cap"
  Depth = 6
INVARIANTS StatusFromHistory GrantedToCurrent AtMostOnce DataFromHistory KeysFromHistory BoundFromHistory
CHECK_DEADLOCK FALSE
