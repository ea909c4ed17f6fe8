INIT PInit
NEXT PNext
CHECK_DEADLOCK FALSE
