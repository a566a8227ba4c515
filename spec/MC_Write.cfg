CONSTANTS
  Wide = FALSE
  MaxWrites = 2
  Short = {1, 5}
SPECIFICATION Spec
INVARIANTS LayoutsWellFormed C01_ReadBack C01_Accepted C02_Media C03_OnlyList C04_Refused C05_NoHistory C07_Info C16_Prefix
CHECK_DEADLOCK FALSE
