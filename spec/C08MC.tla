-------------------------------- MODULE C08MC --------------------------------
(* Plan: every basis, on sample points that include the singular ones, in     *)
(* several array shapes and dtypes.                                           *)
EXTENDS BasisPlan

Job(el, kind, var) ==
    [el |-> el, kind |-> kind, var |-> var,
     pts |-> PtsRec(ElemPoints(el.fs, IF var = "nd" THEN (IF ~Quick \/ Small(el) THEN "rich" ELSE "few")
                                      ELSE IF var = "near" THEN "near" ELSE "few"), TPDim(el.fs))]
Variants == <<"pt", "3d", "empty", "f32", "int", "fort", "one", "many">>
VarEls == Filter(OnbEls, LAMBDA el : Len(el.fs) >= 1 /\ SpaceDim(el.fs) <= 40
                                     /\ (el.form # "P" \/ el.fs[1][2] \in {0, 1, 2, 3, 5}))
Plan ==
    [i \in 1..Len(OnbEls) |-> Job(OnbEls[i], "onb", "nd")]
    \o [i \in 1..Len(MonoEls) |-> Job(MonoEls[i], "mono", "nd")]
    \o [i \in 1..Len(OnbEls) |-> Job(OnbEls[i], "any", "nd")]
    \o [i \in 1..Len(HighEls) |-> Job(HighEls[i], "any", "nd")]
    \o [i \in 1..Len(OnbEls) |-> Job(OnbEls[i], "onb", "near")]
    \o [i \in 1..Len(BigEls) |-> Job(BigEls[i], "onb", "big")]
    \o Cat2(VarEls, Variants, LAMBDA el, v : Job(el, "onb", v))
    \o Cat2(Filter(VarEls, LAMBDA el : TPDim(el.fs) > 0), Variants, LAMBDA el, v : Job(el, "mono", v))
    \o Cat2(CompEls, <<"nd", "pt", "3d", "fort", "empty", "near", "one", "f32", "int", "many">>, LAMBDA el, v : Job(el, "comp", v))
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
