SPECIFICATION Spec
INVARIANT Fifo
CHECK_DEADLOCK FALSE
