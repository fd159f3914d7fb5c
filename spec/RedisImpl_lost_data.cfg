SPECIFICATION Spec
CONSTANTS
  AccL = 1
  RefL = 2
  Clients = {"c1"}
  NOps = 3
  Horizon = 2
  Profile = "data"
  Faults = 2
  WithWorker = TRUE
  Retries = TRUE
  Broken = ""
INVARIANTS OneKey NoPartial
PROPERTIES Refinement TruthAtRead
CHECK_DEADLOCK FALSE
