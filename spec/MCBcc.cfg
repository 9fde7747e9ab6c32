SPECIFICATION Spec
CONSTANTS D <- Dims
 Most = 2
INVARIANTS KeptIsDefinition AllAlike Conforming Whole
CHECK_DEADLOCK FALSE
