SPECIFICATION Spec
CONSTANTS
  Users <- Users2
  Managers <- One
  KeyOf <- KeysTwo
  Coding = "image"
  Check = "noverify-refresh"
  MaxIssue = 4
INVARIANTS OnlyAuthentic ReadsItsId RefreshChecks Unique OneToOne Owned
PROPERTIES DestroyExact
CHECK_DEADLOCK FALSE
