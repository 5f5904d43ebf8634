------------------------------ MODULE C01Trace ------------------------------
(* Every recorded rule is exact to the degree it declares and promises.      *)
EXTENDS Quad, Judge

X(e) == Force([k \in DOMAIN e.X |-> VHex(e.X[k])])
DegOf(e) == Max2(IF e.exact_to > 100000 THEN 0 ELSE e.exact_to, Interpolatory(e.job))
Domain(e) == IF e.dom = "product" THEN e.dims ELSE <<1>>
ExactClause(e) ==
    IF e.dom = "jacobi"
    THEN ExactJacobi(e.wt[1], e.wt[2], e.wt[3], DegOf(e), VHex(e.X[1]), VHex(e.w))
    ELSE IF DegOf(e) < 0 THEN TRUE
    ELSE ExactTotal(Domain(e), DegOf(e), X(e), VHex(e.w))
RuleVerdict(e) ==
    IF e.cls # "ok" THEN Failing(<< <<"available", ~Offered(e.job)>> >>)
    ELSE IF ~(e.shapeok /\ e.finite) THEN <<"well-formed">>
    ELSE Failing(<< <<"declared", e.exact_to >= Promised(e.job)>>,
                    <<"exact", ExactClause(e)>> >>)
=============================================================================
