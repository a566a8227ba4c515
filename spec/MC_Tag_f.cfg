CONSTANTS
  Parts = {"f"}
  MaxOps = 1
SPECIFICATION Spec
INVARIANTS TagValid LawsHold
CHECK_DEADLOCK FALSE
