-------------------------------- MODULE C10MC --------------------------------
(* Plan: symbolicize every basis function and gradient; the points at which   *)
(* the expressions are evaluated include the singular ones.                   *)
EXTENDS BasisPlan

Lim(el) == IF SpaceDim(el.fs) > 60 THEN 8 ELSE IF SpaceDim(el.fs) > 25 THEN 16 ELSE 40
\* a stride through the points that keeps the vertices
Thin(L, n) == IF Len(L) <= n THEN L
              ELSE [i \in 1..n |-> L[((i - 1) * Len(L)) \div n + 1]]
Job(el, kind, what, near) ==
    [el |-> el, kind |-> kind, what |-> what, near |-> near,
     pts |-> PtsRec(Thin(ElemPoints(el.fs, IF near THEN "near" ELSE "few"), IF Quick THEN Lim(el) ELSE 3 * Lim(el)),
                    TPDim(el.fs))]
SymEls == Filter(SimplexEls \o ProdEls, LAMBDA el : SpaceDim(el.fs) <= (IF Quick THEN 60 ELSE 150))
MonoSym == Filter(SymEls \o HighEls, LAMBDA el : SpaceDim(el.fs) <= 40)
ZeroSym == ZeroEls
Plan ==
    Cat2(SymEls, <<"function", "gradient">>, LAMBDA el, w : Job(el, "onb", w, FALSE))
    \o Cat2(SymEls, <<"function", "gradient">>, LAMBDA el, w : Job(el, "onb", w, TRUE))
    \o Cat2(MonoSym, <<"function", "gradient">>, LAMBDA el, w : Job(el, "mono", w, FALSE))
    \o [i \in 1..Len(ZeroSym) |-> Job(ZeroSym[i], "onb", "function", FALSE)]
    \o Cat2(CompEls, <<"function", "gradient">>, LAMBDA el, w : Job(el, "comp", w, FALSE))
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
