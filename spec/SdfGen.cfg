SPECIFICATION Spec
INVARIANT Ordered
INVARIANT InRadius
INVARIANT Laws
CHECK_DEADLOCK FALSE
