SPECIFICATION JSpec
CONSTANT Verdict <- GradVerdict
CHECK_DEADLOCK FALSE
