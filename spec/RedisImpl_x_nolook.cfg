SPECIFICATION Spec
CONSTANTS
  AccL = 1
  RefL = 2
  Clients = {"c1", "c2"}
  NOps = 2
  Horizon = 3
  Profile = "destroy"
  Faults = 0
  WithWorker = TRUE
  Retries = FALSE
  Broken = "noLook"
INVARIANTS OneKey NoPartial
PROPERTIES Refinement TruthAtRead
CHECK_DEADLOCK FALSE
