SPECIFICATION JSpec
CONSTANT Verdict <- BasisVerdict
CHECK_DEADLOCK FALSE
