SPECIFICATION JSpec
CONSTANT Verdict <- MapVerdict
CHECK_DEADLOCK FALSE
