------------------------------ MODULE C18Trace ------------------------------
(* Recorded maps and transplanted rules.                                      *)
EXTENDS Transplant, Judge
\* how far double precision may be off: near the ends arcsin and the derivative amplify
\* relative rounding errors; a strip map of a wide strip is scaled up from 1/rho
Cond(m, s) ==
    LET c(x) == CASE m.m = "kte-alpha" -> BSub(FxOne, FxMul(FxMul(Dy(m.p), Dy(m.p)), FxMul(x, x)))
                  [] m.m = "kte-rho" -> LET a == AlphaOf(Dy(m.p)) IN BSub(FxOne, FxMul(FxMul(a, a), FxMul(x, x)))
                  [] m.m = "strip" -> BSub(FxOne, FxMul(x, x))
                  [] OTHER -> FxOne
    IN  Force([i \in 1..Len(s) |-> FxDiv(FxOne, BMax(c(s[i]), FxEps(60)))])
Big(m) == IF m.m = "strip" /\ BLt(FxInt(20), Dy(m.p)) THEN FxMul(Dy(m.p), FxEps(49)) ELSE FxEps(46)
User(m) == m.m \in {"affine", "cubic"}
GTol(m, k) == BAdd(Big(m), FxMul(FxEps(51), FxSqrt(k)))
DTol(m, k) == BAdd(Big(m), FxMul(FxEps(50), k))
\* points in single precision: the rounding errors are 2^29 times as large
Agree(m, s, g, d, single) ==
    LET r == MapOf(m, s)
        k == Cond(m, s)
        Sc(t) == IF single THEN BShl(t, 30) ELSE t
    IN  Failing(<< <<"length", Len(g) = Len(s) /\ Len(d) = Len(s)>>,
                   <<"values", \A i \in 1..Len(s) : FxNear(g[i], r[1][i], Sc(GTol(m, k[i])))>>,
                   <<"derivative", \A i \in 1..Len(s) : FxNear(d[i], r[2][i], FxMul(r[2][i], Sc(DTol(m, k[i]))))>>,
                   <<"inside", \A i \in 1..Len(s) : BLe(BAbs(g[i]), BAdd(FxOne, Sc(FxEps(50))))>>,
                   <<"positive", \A i \in 1..Len(s) : BLt(BZero, d[i])>> >>)
MapV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE LET s == VHex(e.s)
         IN  IF ~e.shape THEN <<"shape">>
             ELSE Agree(e.job.m, s, VHex(e.g), VHex(e.d), e.job.par = "f32")
                  \o Failing(<< <<"argument", e.arg>>, <<"fresh arrays", e.fresh>>,
                       <<"increasing", (e.job.par \in {"vector", "strided", "ends"}) =>
                            LET g == VHex(e.g) IN \A i \in 1..(Len(g) - 1) : BLt(s[i], s[i + 1]) => BLt(g[i], g[i + 1])>> >>)
RuleV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE LET s == VHex(e.s)
             w == VHex(e.bw)
             nw == VHex(e.w)
             r == MapOf(e.job.m, s)
             k == Cond(e.job.m, s)
             g == VHex(e.x)
         IN  IF ~e.shape THEN <<"shape">>
             ELSE Failing(<< <<"nodes", \A i \in 1..Len(s) : FxNear(g[i], r[1][i], GTol(e.job.m, k[i]))>>,
                    <<"weights", \A i \in 1..Len(s) : FxNear(nw[i], FxMul(w[i], r[2][i]), FxMul(BAbs(FxMul(w[i], r[2][i])), DTol(e.job.m, k[i])))>>,
                    <<"inside", User(e.job.m) \/ \A i \in 1..Len(s) : BLe(BAbs(g[i]), BAdd(FxOne, FxEps(50)))>>,
                    <<"exactness", IF e.job.m.m = "identity" THEN e.exact = e.bexact ELSE e.exact = -1>>,
                    <<"base rule", e.base>> >>)
Rejected(e) == IF e.cls = "exc" /\ \E q \in DOMAIN e.exc : e.exc[q] = "ValueError" THEN <<>> ELSE <<"rejected">>
TransVerdict(e) ==
    IF e.job.fam = "bad" THEN (IF e.job.par = "base" \/ ~Valid(e.job.m) \/ e.job.base \in {"cc", "lgl"} THEN Rejected(e) ELSE <<"plan">>)
    ELSE IF ~Valid(e.job.m) THEN <<"plan">>
    ELSE IF e.job.fam = "map" THEN MapV(e) ELSE RuleV(e)
=============================================================================
