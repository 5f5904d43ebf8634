SPECIFICATION NSpec
INVARIANT NInv
PROPERTIES Terminates Progress
CHECK_DEADLOCK FALSE
