SPECIFICATION JSpec
CONSTANT Verdict <- MeshVerdict
CHECK_DEADLOCK FALSE
