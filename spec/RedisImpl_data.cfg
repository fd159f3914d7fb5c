SPECIFICATION Spec
CONSTANTS
  AccL = 1
  RefL = 2
  Clients = {"c1", "c2"}
  NOps = 2
  Horizon = 1
  Profile = "data"
  Faults = 0
  WithWorker = FALSE
  Retries = FALSE
  Broken = ""
INVARIANTS OneKey NoPartial
PROPERTIES Refinement TruthAtRead
CHECK_DEADLOCK FALSE
