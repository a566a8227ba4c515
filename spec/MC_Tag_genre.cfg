CONSTANTS
  Parts = {"genre"}
  MaxOps = 1
SPECIFICATION Spec
INVARIANTS TagValid LawsHold
CHECK_DEADLOCK FALSE
