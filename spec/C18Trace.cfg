SPECIFICATION JSpec
CONSTANT Verdict <- TransVerdict
CHECK_DEADLOCK FALSE
