SPECIFICATION Spec
CONSTANTS
  Length = 5
  Vals = {1000, 5000, 3600000, 7200000, 86400000, 90000000}
INVARIANTS Lifetimes LastCounts Registered
CHECK_DEADLOCK FALSE
