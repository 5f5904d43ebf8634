-------------------------------- MODULE C09MC --------------------------------
(* Plan: the gradients and axis derivatives of every basis of positive        *)
(* dimension.  (The oracle's derivatives are checked by OrthoMC.)             *)
EXTENDS BasisPlan

Job(el, kind, var, via) ==
    [el |-> el, kind |-> kind, var |-> var, via |-> via,
     pts |-> PtsRec(ElemPoints(el.fs, IF var = "nd" THEN (IF ~Quick \/ Small(el) THEN "rich" ELSE "few")
                                      ELSE IF var = "near" THEN "near" ELSE "few"), TPDim(el.fs))]
Variants == <<"pt", "3d", "empty", "f32", "int", "fort", "one", "many">>
GradOnb == SimplexEls \o ProdEls
VarEls == Filter(GradOnb, LAMBDA el : SpaceDim(el.fs) <= 40 /\ (el.form # "P" \/ el.fs[1][2] \in {0, 1, 2, 3, 5}))
Half(L, m) == Filter(L, LAMBDA el : (SpaceDim(el.fs) + Len(el.fs)) % 2 = m)
Plan ==
    Cat2(GradOnb, <<"gradients", "derivatives">>, LAMBDA el, v : Job(el, "onb", "nd", v))
    \o Cat2(MonoEls, <<"gradients", "derivatives">>, LAMBDA el, v : Job(el, "mono", "nd", v))
    \o Cat2(HighEls, <<"gradients">>, LAMBDA el, v : Job(el, "any", "nd", v))
    \o Cat2(GradOnb, <<"gradients">>, LAMBDA el, v : Job(el, "onb", "near", v))
    \o [i \in 1..Len(BigEls) |-> Job(BigEls[i], "onb", "big", "gradients")]
    \o Cat2(VarEls, Variants, LAMBDA el, v : Job(el, "onb", v, "gradients"))
    \o Cat2(VarEls, Variants, LAMBDA el, v : Job(el, "mono", v, "gradients"))
    \o Cat2(Half(VarEls, 0), Variants, LAMBDA el, v : Job(el, "onb", v, "derivatives"))
    \o Cat2(Half(VarEls, 1), Variants, LAMBDA el, v : Job(el, "mono", v, "derivatives"))
    \o Cat2(CompEls, <<"nd", "pt", "3d", "fort", "empty", "near", "one", "f32", "int", "many">>, LAMBDA el, v : Job(el, "comp", v, "gradients"))
    \o Cat2(CompEls, <<"nd", "pt", "3d", "int">>, LAMBDA el, v : Job(el, "comp", v, "derivatives"))
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
