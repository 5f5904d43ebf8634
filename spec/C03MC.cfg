INIT CInit
NEXT CNext
INVARIANT CInv
CHECK_DEADLOCK FALSE
