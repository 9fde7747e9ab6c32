SPECIFICATION TSpec
CONSTANTS Alphabet = {1} MaxTris = 1
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
