SPECIFICATION Spec
INVARIANT Ordered
INVARIANT Symmetric
INVARIANT NeverAbove
INVARIANT PlainWhenFar
INVARIANT Monotone
INVARIANT Dual
INVARIANT Largest
CHECK_DEADLOCK FALSE
