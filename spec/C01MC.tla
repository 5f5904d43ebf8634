-------------------------------- MODULE C01MC --------------------------------
(* The oracle for exactness is model checked (OrthoMC), and the plan of all   *)
(* rules to construct is written.                                             *)
EXTENDS OrthoMC, RulePlan, Json
Plan == RulePlan
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
