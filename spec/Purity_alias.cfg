SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
          Shapes = {1, 2}
          Points = {0, 1}
          Values = {0, 1}
          Impl = "alias"
INVARIANTS OneAnswer RightAnswer
CHECK_DEADLOCK FALSE
