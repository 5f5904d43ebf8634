SPECIFICATION JSpec
CONSTANT Verdict <- GuardVerdict
CHECK_DEADLOCK FALSE
