INIT AInit
NEXT ANext
INVARIANT AInv
CHECK_DEADLOCK FALSE
