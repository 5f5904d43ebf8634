SPECIFICATION JSpec
CONSTANT Verdict <- AlgVerdict
CHECK_DEADLOCK FALSE
