INIT SInit
NEXT SNext
INVARIANT SInv
CHECK_DEADLOCK FALSE
