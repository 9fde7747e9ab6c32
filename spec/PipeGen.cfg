SPECIFICATION PipeSpec
CHECK_DEADLOCK FALSE
