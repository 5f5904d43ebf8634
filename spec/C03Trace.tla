------------------------------ MODULE C03Trace ------------------------------
(* Rules are well-formed, combine as the model of compositions says, and      *)
(* evaluate to the weighted sum of the values they are given.                 *)
EXTENDS Compose, Judge

X(e) == Force([k \in DOMAIN e.X |-> VHex(e.X[k])])
Tol == FxEps(44)
Jac(e) == e.dom = "jacobi"
Dims(e) == IF e.dom = "product" THEN e.dims ELSE <<1>>
fsOf(e) == [k \in DOMAIN Dims(e) |-> <<Dims(e)[k], 0>>]
All(u, Pr(_)) == \A i \in 1..Len(u) : Pr(u[i])
\* inside the closed element
Inside(e) ==
    LET fs == fsOf(e)
        x == X(e)
        lowest == BSub(BNeg(FxOne), Tol)
        ok(Y) == /\ \A l \in 1..Len(Y) : All(Y[l], LAMBDA v : BLe(lowest, v))
                 /\ Len(Y) > 0 => All(FoldLeft(LAMBDA a, l : VAdd(a, Y[l]), VConst(BZero, Len(Y[1])), [l \in 1..Len(Y) |-> l]),
                                      LAMBDA v : BLe(v, BAdd(FxInt(2 - Len(Y)), Tol)))
    IN  \A k \in DOMAIN fs : ok(TPSub(fs, k, x))
Positive(j) == j.fam \notin {"gm", "xg", "prod", "tr", "zero"}
Count(j, n) == CASE j.fam \in {"jg", "jgs", "lg", "lgs", "cheb", "chebs", "geg", "gegs", "jgl", "lgl", "cc"} -> n = j.N + 1
                 [] j.fam = "fejer" -> n = j.N + 1 - j.par[1]
                 [] j.fam = "kron" -> n = 2 * j.N + 1
                 [] j.fam = "krong" -> n = j.N
                 [] j.fam \in {"lgtp", "lgltp"} -> n = (j.N + 1) ^ j.d
                 [] j.fam = "zero" -> n = 1
                 [] OTHER -> n >= 1
Volume(e) ==
    LET w == VHex(e.w)
        s == FxSum(w)
        v == IF Jac(e) THEN JMass(e.wt[1], e.wt[2], e.wt[3]) ELSE TPVol(fsOf(e))
        bits == IF Jac(e) /\ 2 * Min2(e.wt[1], e.wt[2]) < -e.wt[3] THEN 36 ELSE 42
    IN  BLe(BAbs(BSub(s, v)), BShr(FxSum(VAbs(w)), bits))
\* symmetric rules: the generators of the element's symmetry group
Sym(j) == IF j.fam \in {"vr", "js"} THEN "simplex"
          ELSE IF j.fam = "wv" THEN "cube"
          ELSE IF j.fam \in {"lg", "lgs", "cheb", "chebs", "geg", "gegs", "lgl", "cc", "fejer", "kron", "krong"} THEN "simplex"
          ELSE IF j.fam \in {"jg", "jgs", "jgl"} /\ j.par[1] = j.par[2] THEN "simplex"
          ELSE "no"
Swap(x, l) == [x EXCEPT ![l] = x[l + 1], ![l + 1] = x[l]]
Images(kind, x) ==
    LET d == Len(x)
        n == Len(x[1])
        first == IF kind = "cube" THEN VSub(VConst(BZero, n), x[1])
                 ELSE FoldLeft(LAMBDA a, l : VSub(a, VAdd(x[l], VConst(FxOne, n))), VConst(FxOne, n), [l \in 1..d |-> l])
    IN  <<[x EXCEPT ![1] = first]>> \o [l \in 1..(d - 1) |-> Swap(x, l)]
Pick(u, p) == Force([i \in 1..Len(p) |-> u[p[i] + 1]])
SymTol(j) == IF j.fam \in {"vr", "jg", "jgs", "jgl", "geg", "gegs"} THEN FxEps(36) ELSE FxEps(42)
Symmetric(e) ==
    LET x == X(e)
        w == VHex(e.w)
        im == Images(Sym(e.job.rule), x)
        t == SymTol(e.job.rule)
    IN  /\ Len(e.wit) = Len(im)
        /\ \A g \in 1..Len(im) :
              /\ Len(e.wit[g]) = Len(w) /\ {e.wit[g][i] : i \in 1..Len(w)} = 0..(Len(w) - 1)
              /\ \A l \in 1..Len(x) : VxNear(Pick(x[l], e.wit[g]), im[g][l], t)
              /\ VxClose(Pick(w, e.wit[g]), w, t)
RuleV(e) ==
    LET j == e.job.rule
    IN  IF e.cls # "ok" THEN Failing(<< <<"available", ~Offered(j)>> >>)
        ELSE IF ~(e.shapeok /\ e.finite) THEN <<"well-formed">>
        ELSE Failing(<< <<"dim", e.dim = FoldLeft(LAMBDA a, v : a + v, 0, Dims(e))>>,
                <<"forms", e.forms>>,
                <<"inside", Inside(e)>>,
                <<"positive", Positive(j) => All(VHex(e.w), LAMBDA v : BSign(v) > 0)>>,
                <<"count", Count(j, Len(VHex(e.w)))>>,
                <<"volume", Volume(e)>>,
                <<"symmetric", Sym(j) = "no" \/ Symmetric(e)>> >>)
\* compositions of rules with integer nodes and weights: everything is exact
CompV(e) ==
    LET r == RuleOf(e.job.x)
    IN  IF e.cls # "ok" THEN <<"available">>
        ELSE Failing(<< <<"product dim", e.dim = r.d>>, <<"product nodes", e.x = r.x>>,
                        <<"product weights", e.w = r.w>>, <<"product exactness", e.ex = r.ex>>,
                        <<"quadratures", e.quads>> >>)
NoneV(e) == Failing(<< <<"unavailable", e.cls = "exc" /\ \E k \in DOMAIN e.exc : e.exc[k] = "QuadratureRuleUnavailable">> >>)
\* q(f) = sum of weights times values
CallV(e) ==
    IF e.cls # "ok" THEN <<"evaluates">>
    ELSE LET w == VHex(e.w)
             ok(v, r) == BLe(BAbs(BSub(FxDot(w, v), r)), BShr(FxDot(VAbs(w), VAbs(v)), 44))
             rows(V, res) == LET r == VHex(res) IN \A k \in DOMAIN V : ok(VHex(V[k]), r[k])
         IN  Failing(<< <<"called with the nodes", e.passed>>, <<"result shape", e.shapeok>>,
                        <<"weighted sum", e.shapeok => (rows(e.re, e.rre) /\ rows(e.im, e.rim))>> >>)
TrV(e) ==
    LET t == e.job.x
    IN  IF t[2] <= t[1] THEN Failing(<< <<"empty interval", e.cls = "exc" /\ \E k \in DOMAIN e.exc : e.exc[k] = "ValueError">> >>)
        ELSE IF e.cls # "ok" THEN <<"available">>
        ELSE LET left == BHex(e.l)      \* the limits as the numbers given
                 len == BShr(BSub(BHex(e.r), left), 1)
                 x == VHex(e.bx)
                 w == VHex(e.bw)
                 map == VAdd(VxTimes(len, VAdd(x, VConst(FxOne, Len(x)))), VConst(left, Len(x)))
             IN  Failing(<< <<"mapped nodes", VxClose(VHex(e.x), map, Tol)>>,
                            <<"mapped weights", VxClose(VHex(e.w), VxTimes(len, w), Tol)>>,
                            <<"mapped exactness", e.ex = e.bex>>, <<"limits", e.limits>>, <<"shape", e.shapeok>> >>)
\* the degree "infinity" is above every number
InfV(e) ==
    LET lt(a, b) == a < b
        val(r) == CASE r[1] = "<" -> r[2] < r[3] [] r[1] = "<=" -> r[2] <= r[3] [] r[1] = ">" -> r[2] > r[3]
                    [] r[1] = ">=" -> r[2] >= r[3] [] r[1] = "==" -> r[2] = r[3] [] r[1] = "!=" -> r[2] # r[3]
                    [] r[1] = "isinf" -> r[2] = INF
        num(r) == CASE r[1] = "min" -> Min2(r[2], r[3]) [] r[1] = "max" -> Max2(r[2], r[3])
                    [] r[1] = "+" -> (IF r[2] = INF THEN INF ELSE r[2] + r[3])
    IN  Failing(<< <<"order", Len(e.cmp) > 0 /\ \A k \in DOMAIN e.cmp : e.cmp[k][4] = (IF val(e.cmp[k]) THEN "True" ELSE "False")>>,
                   <<"minimum", Len(e.num) > 0 /\ \A k \in DOMAIN e.num : e.num[k][4] = num(e.num[k])>> >>)
FormVerdict(e) == CASE e.job.kind = "rule" -> RuleV(e) [] e.job.kind = "comp" -> CompV(e) [] e.job.kind = "none" -> NoneV(e)
                    [] e.job.kind = "call" -> CallV(e) [] e.job.kind = "tr" -> TrV(e) [] e.job.kind = "inf" -> InfV(e)
=============================================================================
