SPECIFICATION Spec
CONSTANTS Alphabet = {1,2,3} MaxTris = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
