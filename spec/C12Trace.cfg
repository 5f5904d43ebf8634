SPECIFICATION JSpec
CONSTANT Verdict <- OpVerdict
CHECK_DEADLOCK FALSE
