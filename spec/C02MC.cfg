SPECIFICATION BSpec
INVARIANT BInv
CHECK_DEADLOCK FALSE
