SPECIFICATION JSpec
CONSTANT Verdict <- RuleVerdict
CHECK_DEADLOCK FALSE
