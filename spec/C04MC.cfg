INIT GInit
NEXT GNext
INVARIANT GInv
CHECK_DEADLOCK FALSE
