SPECIFICATION JSpec
CONSTANT Verdict <- JacobiVerdict
CHECK_DEADLOCK FALSE
