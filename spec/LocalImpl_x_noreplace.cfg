SPECIFICATION Spec
CONSTANTS
  Kind = "mem"
  Max = 2
  AccL = 1
  RefL = 2
  Batch = 1
  Clients = {"c1", "c2"}
  NOps = 2
  Horizon = 1
  HasClose = FALSE
  WithSweep = FALSE
  Broken = "noreplace"
INVARIANTS Consistent Bound Locked
PROPERTIES Refinement
CHECK_DEADLOCK FALSE
