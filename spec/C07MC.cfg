INIT NInit
NEXT NNext
INVARIANT NInv
CHECK_DEADLOCK FALSE
