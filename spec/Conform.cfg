INIT ConformInit
NEXT Next
CHECK_DEADLOCK FALSE
