SPECIFICATION Spec
INVARIANTS Whole Mirrored Within
PROPERTY OnlyNamed
CHECK_DEADLOCK FALSE
