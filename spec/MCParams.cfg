SPECIFICATION Spec
INVARIANTS Decided Positive Written
PROPERTY Kept
CHECK_DEADLOCK FALSE
