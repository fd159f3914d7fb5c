SPECIFICATION Spec
CONSTANTS
  Kind = "mem"
  Max = 0
  AccL = 1
  RefL = 1
  Batch = 1
  Clients = {"c1", "c2", "c3"}
  NOps = 1
  Horizon = 1
  HasClose = TRUE
  WithSweep = FALSE
  Broken = ""
INVARIANTS Consistent Bound Locked
PROPERTIES Refinement Returns Ends
CHECK_DEADLOCK FALSE
