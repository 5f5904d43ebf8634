------------------------------ MODULE C02Trace ------------------------------
(* quadrature_for_space returns a rule that is exact on the whole space.      *)
EXTENDS Quad, Judge
X(e) == Force([k \in DOMAIN e.X |-> VHex(e.X[k])])
RuleVerdict(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE IF ~(e.shapeok /\ e.finite) THEN <<"well-formed">>
    ELSE Failing(<< <<"exact", IF e.job.el.fs = <<>> THEN SumOK(VHex(e.w), <<FxOne>>, FxOne)
                               ELSE ExactSpace(e.job.el.fs, X(e), VHex(e.w))>>,
                    \* no rule is exact for everything: a one-factor rule must declare its order
                    <<"declared", (Len(e.job.el.fs) = 1 /\ e.job.el.form = "P") =>
                                  e.exact_to >= e.job.el.fs[1][2]>> >>)
=============================================================================
