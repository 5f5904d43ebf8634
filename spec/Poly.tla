-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Exact rational numbers and polynomials in d variables: a polynomial is  *)
(* a function from exponent tuples to rationals <<num, den>>, den > 0.     *)
(***************************************************************************)
EXTENDS Fx, FiniteSets, FiniteSetsExt

QMk(n, d) == IF BSign(n) = 0 THEN <<BZero, BOne>>
             ELSE LET g == BGcd(n, d)
                      s == IF BSign(d) < 0 THEN BNeg(g) ELSE g
                  IN  <<BDiv(n, s), BDiv(d, s)>>
QInt(n) == <<BInt(n), BOne>>
QFrac(n, d) == QMk(BInt(n), BInt(d))
QAdd(x, y) == QMk(BAdd(BMul(x[1], y[2]), BMul(y[1], x[2])), BMul(x[2], y[2]))
QNeg(x) == <<BNeg(x[1]), x[2]>>
QSub(x, y) == QAdd(x, QNeg(y))
QMul(x, y) == QMk(BMul(x[1], y[1]), BMul(x[2], y[2]))
QDiv(x, y) == QMk(BMul(x[1], y[2]), BMul(x[2], y[1]))
QZero == QInt(0)
QOne == QInt(1)
QIsZero(x) == BSign(x[1]) = 0
QCmp(x, y) == BCmp(BMul(x[1], y[2]), BMul(y[1], x[2]))
QFx(x) == FxBQ(x[1], x[2])
QSum(S, f(_)) == FoldSet(LAMBDA e, acc : QAdd(acc, f(e)), QZero, S)

PClean(p) == [e \in {x \in DOMAIN p : ~QIsZero(p[x])} |-> p[e]]
PCoef(p, e) == IF e \in DOMAIN p THEN p[e] ELSE QZero
PlAdd(p, q) == PClean([e \in DOMAIN p \cup DOMAIN q |-> QAdd(PCoef(p, e), PCoef(q, e))])
PlScale(p, c) == PClean([e \in DOMAIN p |-> QMul(c, p[e])])
PlSub(p, q) == PlAdd(p, PlScale(q, QInt(-1)))
EAdd(e, f) == [i \in 1..Len(e) |-> e[i] + f[i]]
PlMul(p, q) ==
    FoldSet(LAMBDA e, acc : PlAdd(acc, [x \in {EAdd(e, f) : f \in DOMAIN q} |->
                QMul(p[e], q[[i \in 1..Len(x) |-> x[i] - e[i]]])]),
            <<>>, DOMAIN p)
PlConst(c, d) == IF QIsZero(c) THEN <<>> ELSE [e \in {[i \in 1..d |-> 0]} |-> c]
PlVar(l, d) == [e \in {[i \in 1..d |-> IF i = l THEN 1 ELSE 0]} |-> QOne]
PlDiff(p, l) ==
    PClean([f \in {[e EXCEPT ![l] = @ - 1] : e \in {x \in DOMAIN p : x[l] > 0}} |->
              QMul(QInt(f[l] + 1), p[[f EXCEPT ![l] = @ + 1]])])
EDeg(e) == FoldLeft(LAMBDA a, x : a + x, 0, e)
PlDeg(p) == IF DOMAIN p = {} THEN -1 ELSE Max({EDeg(e) : e \in DOMAIN p})
\* value at a rational point
PlEval(p, x) ==
    QSum(DOMAIN p, LAMBDA e :
        FoldLeft(LAMBDA acc, i : FoldLeft(LAMBDA a, j : QMul(a, x[i]), acc, [j \in 1..e[i] |-> j]),
                 p[e], [i \in 1..Len(e) |-> i]))

\* integral of t^e over the unit simplex {t >= 0, sum t <= 1}: e! / (|e| + d)!
UnitMoment(e) == <<BProd([i \in 1..Len(e) |-> BFact(e[i])]), BFact(EDeg(e) + Len(e))>>
UnitIntegral(p) == QSum(DOMAIN p, LAMBDA e :
                        QMul(p[e], QMk(UnitMoment(e)[1], UnitMoment(e)[2])))
=============================================================================
