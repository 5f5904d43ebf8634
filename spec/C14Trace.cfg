SPECIFICATION JSpec
CONSTANT Verdict <- ReshapeVerdict
CHECK_DEADLOCK FALSE
