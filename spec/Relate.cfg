SPECIFICATION RelSpec
CHECK_DEADLOCK FALSE
