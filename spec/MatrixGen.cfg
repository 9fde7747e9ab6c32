SPECIFICATION Spec
INVARIANT Undoes
INVARIANT Rigid
INVARIANT Axis
CHECK_DEADLOCK FALSE
