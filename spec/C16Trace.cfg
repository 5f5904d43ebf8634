SPECIFICATION JSpec
CONSTANT Verdict <- AdaptVerdict
CHECK_DEADLOCK FALSE
