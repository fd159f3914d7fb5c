SPECIFICATION Spec
CONSTANTS
  Users <- Users2
  Managers <- Two
  KeyOf <- KeysTwo
  Coding = "image"
  Check = "full"
  MaxIssue = 4
INVARIANTS OnlyAuthentic ReadsItsId RefreshChecks Unique OneToOne Owned
PROPERTIES DestroyExact
CHECK_DEADLOCK FALSE
