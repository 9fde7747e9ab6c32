SPECIFICATION GSpec
CONSTANTS Alphabet = {1} MaxTris = 1
CHECK_DEADLOCK FALSE
