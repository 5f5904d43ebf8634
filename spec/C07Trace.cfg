SPECIFICATION JSpec
CONSTANT Verdict <- NodeVerdict
CHECK_DEADLOCK FALSE
