SPECIFICATION Spec
CONSTANTS
  AccL = 1
  RefL = 2
  Clients = {"c1"}
  NOps = 2
  Horizon = 1
  Profile = "rotate"
  Faults = 1
  WithWorker = TRUE
  Retries = TRUE
  Broken = "retryexec"
INVARIANTS OneKey NoPartial
PROPERTIES Refinement TruthAtRead
CHECK_DEADLOCK FALSE
