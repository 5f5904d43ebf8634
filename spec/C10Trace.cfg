SPECIFICATION JSpec
CONSTANT Verdict <- SymVerdict
CHECK_DEADLOCK FALSE
