SPECIFICATION JSpec
CONSTANT Verdict <- PairVerdict
CHECK_DEADLOCK FALSE
