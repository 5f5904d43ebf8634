------------------------------ MODULE C22Trace ------------------------------
(* Recorded outcomes against what is to be accepted and rejected.             *)
EXTENDS Guards, Judge
Has(x, c) == \E i \in DOMAIN x : x[i] = c
Outcome(want, cls, exc) == IF want = "ok" THEN cls = "ok"
                           ELSE cls = "exc" /\ (want = "any" \/ Has(exc, want))
Vol(f) == FoldLeft(LAMBDA v, d : BDiv(BMul(v, BPow(BInt(2), d)), BFact(d)), FxOne, f)
PairClauses(e, s, h, o) ==
    LET want == Expect2(s, h)
        fs == Flat(s)
    IN  \* products of points only: whether the number of factors matters is left open (the domain is the same point)
        IF Kind(s) = "product" /\ Kind(h) = "product" /\ DimOf(s) = 0 /\ DimOf(h) = 0 /\ want # "ok" THEN <<>>
        ELSE IF want = "ok" /\ o.cls # "ok" THEN <<<<o.fn, "rejected", o.exc>>>>
        ELSE IF ~Outcome(want, o.cls, o.exc) THEN <<<<o.fn, IF o.cls = "ok" THEN "accepted" ELSE "other exception", want>>>>
        ELSE IF want # "ok" THEN <<>>
        ELSE LET n == SpaceDim([k \in 1..Len(fs) |-> <<fs[k], e.orders[k]>>])
             IN  (IF o.dim = SumSeq(fs) THEN <<>> ELSE <<<<o.fn, "dimension">>>>)
                 \o (IF o.fn = "quadrature_for_space" THEN
                         IF FxNear(BHex(o.vol), Vol(fs), FxEps(30)) THEN <<>> ELSE <<<<o.fn, "volume">>>>
                     ELSE IF o.count = n THEN <<>> ELSE <<<<o.fn, "number">>>>)
GuardVerdict(e) ==
    CASE e.kind = "param" ->
            IF Outcome(e.job.want, e.cls, e.exc) THEN <<>> ELSE <<<<e.job.c, e.job.s, e.job.a, "expected", e.job.want, "got", e.cls>>>>
      [] e.kind = "pairs" -> FlattenSeq([i \in 1..Len(e.outs) |-> PairClauses(e, e.space, e.shape, e.outs[i])])
      [] OTHER -> IF e.cls = "ok" THEN <<>> ELSE <<"face rejected">>
=============================================================================
