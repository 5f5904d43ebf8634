------------------------------ MODULE OrthoMC ------------------------------
(***************************************************************************)
(* The oracle is right: the polynomials of Ortho, rebuilt here from the    *)
(* same recurrences with exact rational coefficients, are orthogonal with  *)
(* the stated norms, are graded (degree = |idx|, hence a basis of all      *)
(* polynomials), and Ortho's fixed-point values and derivatives are theirs.*)
(* One state per pair of indices.                                          *)
(***************************************************************************)
EXTENDS Ortho, Poly, TLC, Params
MaxDim == 3
MaxDeg(d) == IF Quick THEN (CASE d = 1 -> 6 [] d = 2 -> 3 [] OTHER -> 2)
                      ELSE (CASE d = 1 -> 9 [] d = 2 -> 6 [] OTHER -> 4)

\* exact phi_idx as a polynomial in t
PolyJ(a, N, U, S, d) ==
    LET p1 == PlScale(PlAdd(PlScale(S, QInt(a)), PlScale(U, QInt(a + 2))), QFrac(1, 2))
        Step(acc, n) ==
            LET c == JRec(a, 0, 1, n)
                q(x) == QMk(x, c[1])
            IN  Append(acc, PlSub(PlAdd(PlScale(PlMul(U, acc[n]), q(c[2])),
                                        PlScale(PlMul(S, acc[n]), q(c[3]))),
                                  PlScale(PlMul(PlMul(S, S), acc[n - 1]), q(c[4]))))
        base == IF N = 0 THEN <<PlConst(QOne, d)>> ELSE <<PlConst(QOne, d), p1>>
    IN  FoldLeft(Step, base, [i \in 1..Max2(N - 1, 0) |-> i + 1])[N + 1]
PolyS(d, m) == FoldLeft(LAMBDA acc, l : PlSub(acc, PlVar(l, d)), PlConst(QOne, d),
                        [i \in 1..(d - m) |-> m + i])
PolyPhi(idx) ==
    LET d == Len(idx)
    IN  FoldLeft(LAMBDA acc, m :
            PlMul(acc, PolyJ(2 * IdxSum(SubSeq(idx, 1, m - 1)) + m - 1, idx[m],
                             PlSub(PlScale(PlVar(m, d), QInt(2)), PolyS(d, m)), PolyS(d, m), d)),
            PlConst(QOne, d), [i \in 1..d |-> i])

\* sample points in t, degenerate ones included
SampleT(d) == LET V == {QZero, QOne, QFrac(1, 4), QFrac(3, 8)}
              IN  {x \in [1..d -> V] : QCmp(FoldLeft(LAMBDA a, l : QAdd(a, x[l]), QZero,
                                                     [i \in 1..d |-> i]), QOne) <= 0}
VARIABLES od, oi, oj, ov
vars == <<od, oi, oj, ov>>
Idx(k) == {IdxList(k, MaxDeg(k))[n] : n \in 1..Len(IdxList(k, MaxDeg(k)))}
Init == /\ od \in 1..MaxDim /\ oi \in Idx(od) /\ oj \in Idx(od) /\ ov = "todo"

Orthogonal ==
    LET ip == UnitIntegral(PlMul(PolyPhi(oi), PolyPhi(oj)))
        n2 == SimplexNorm2(oi)
    IN  IF oi = oj THEN QMul(ip, QInt(2 ^ od)) = QMk(n2[1], n2[2]) ELSE QIsZero(ip)
Graded == PlDeg(PolyPhi(oi)) = EDeg(oi)
TwoX(x) == [l \in 1..od |-> QSub(QMul(x[l], QInt(2)), QOne)]
Values ==
    \A x \in SampleT(od) :
        LET X == [l \in 1..od |-> <<QFx(TwoX(x)[l])>>]
            N == EDeg(oi)
            fac == SimplexFac(od, N, X)
        IN  /\ FxNear(SimplexVal(fac, od, oi, 1)[1], QFx(PlEval(PolyPhi(oi), x)), FxEps(70))
            /\ \A l \in 1..od :
                  LET D == SimplexDer(SimplexFacD(od, N, X, l), od, oi, 1)
                  IN  /\ D[1] = SimplexVal(fac, od, oi, 1)
                      /\ FxNear(BMul(D[2][1], BInt(2)),
                                QFx(PlEval(PlDiff(PolyPhi(oi), l), x)), FxEps(70))
\* one-dimensional, general Jacobi parameters: exact orthogonality via the
\* beta-function moments int (1+x)^k w dx = mass * 2^k prod (b+j)/(a+b+j+1)
JPar == {<<0,0,1>>, <<1,0,1>>, <<2,3,1>>, <<1,1,2>>, <<-1,1,2>>, <<-1,-1,2>>, <<1,-3,4>>, <<-1,-3,4>>, <<5,2,4>>}
PolyJG(a, b, q, N) ==
    LET U == PlSub(PlVar(1, 1), PlConst(QOne, 1))       \* x = y - 1, variable y = 1 + x
        p1 == PlAdd(PlConst(QFrac(a - b, 2 * q), 1), PlScale(U, QFrac(a + b + 2 * q, 2 * q)))
        Step(acc, n) ==
            LET c == JRec(a, b, q, n)
                r(x) == QMk(x, c[1])
            IN  Append(acc, PlSub(PlAdd(PlScale(PlMul(U, acc[n]), r(c[2])), PlScale(acc[n], r(c[3]))),
                                  PlScale(acc[n - 1], r(c[4]))))
        base == IF N = 0 THEN <<PlConst(QOne, 1)>> ELSE <<PlConst(QOne, 1), p1>>
    IN  FoldLeft(Step, base, [k \in 1..Max2(N - 1, 0) |-> k + 1])[N + 1]
JMoment(a, b, q, k) == FoldLeft(LAMBDA acc, m :
        QMul(acc, QFrac(2 * (b + m * q), a + b + (m + 1) * q)), QOne, [m \in 1..k |-> m])
JacobiOK ==
    od = 1 => \A p \in JPar :
        LET pr == PlMul(PolyJG(p[1], p[2], p[3], oi[1]), PolyJG(p[1], p[2], p[3], oj[1]))
            ip == QSum(DOMAIN pr, LAMBDA e : QMul(pr[e], JMoment(p[1], p[2], p[3], e[1])))
            nr == JNormRatio(p[1], p[2], p[3], oi[1])
        IN  IF oi = oj THEN ip = QMk(nr[1], nr[2]) ELSE QIsZero(ip)
Next == /\ ov = "todo" /\ UNCHANGED <<od, oi, oj>>
        /\ ov' = IF Orthogonal /\ JacobiOK /\ (oi = oj => Graded /\ Values) THEN "ok" ELSE "bad"
Spec == Init /\ [][Next]_vars
Inv == ov # "bad"
=============================================================================
