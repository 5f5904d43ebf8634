SPECIFICATION JSpec
CONSTANT Verdict <- GeomVerdict
CHECK_DEADLOCK FALSE
