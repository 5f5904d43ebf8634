SPECIFICATION JSpec
CONSTANT Verdict <- FormVerdict
CHECK_DEADLOCK FALSE
