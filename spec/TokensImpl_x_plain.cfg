SPECIFICATION Spec
CONSTANTS
  Users <- UsersDots
  Managers <- One
  KeyOf <- KeysTwo
  Coding = "plain"
  Check = "full"
  MaxIssue = 4
INVARIANTS OnlyAuthentic ReadsItsId RefreshChecks Unique OneToOne Owned
PROPERTIES DestroyExact
CHECK_DEADLOCK FALSE
