SPECIFICATION JSpec
CONSTANT Verdict <- ConVerdict
CHECK_DEADLOCK FALSE
