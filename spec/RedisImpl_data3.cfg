SPECIFICATION Spec
CONSTANTS
  AccL = 1
  RefL = 2
  Clients = {"c1", "c2", "c3"}
  NOps = 1
  Horizon = 2
  Profile = "data"
  Faults = 1
  WithWorker = TRUE
  Retries = FALSE
  Broken = ""
INVARIANTS OneKey NoPartial
PROPERTIES Refinement TruthAtRead
CHECK_DEADLOCK FALSE
