SPECIFICATION Spec
CONSTANTS
  BufSizes = {1, 2, 3}
  MaxSteps = 3
  MaxN = 3
  Mutant = "none"
  Scripts <- MCScripts
INVARIANTS TypeOK Prefix NothingLost Complete
PROPERTY Finishes
CHECK_DEADLOCK FALSE
