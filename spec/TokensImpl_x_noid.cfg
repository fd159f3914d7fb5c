SPECIFICATION Spec
CONSTANTS
  Users <- Users2
  Managers <- One
  KeyOf <- KeysTwo
  Coding = "image"
  Check = "noid"
  MaxIssue = 4
INVARIANTS OnlyAuthentic ReadsItsId RefreshChecks Unique OneToOne Owned
PROPERTIES DestroyExact
CHECK_DEADLOCK FALSE
