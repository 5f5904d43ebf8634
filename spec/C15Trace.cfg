SPECIFICATION JSpec
CONSTANT Verdict <- DecayVerdict
CHECK_DEADLOCK FALSE
