SPECIFICATION JSpec
CONSTANT Verdict <- HistVerdict
CHECK_DEADLOCK FALSE
