SPECIFICATION Spec
INVARIANT Sum
CHECK_DEADLOCK FALSE
