SPECIFICATION Spec
CONSTANTS H = 2  R = 3  MaxCount = 3  MaxLen = 13  Mutant = "none"
INVARIANTS Outcome CompleteModel
PROPERTY Ends
CHECK_DEADLOCK FALSE
