--------------------------------- MODULE Fx ---------------------------------
(***************************************************************************)
(* Fixed-point reals: a big integer b stands for b / 2^FP, FP = 160, so    *)
(* that products of tiny and huge factors keep their digits.  The values   *)
(* the drivers record (doubles) are converted to this format, exactly      *)
(* whenever |x| >= 2^-107 (or x = 0).  The elementary functions are        *)
(* accurate to about 2^-90.                                                *)
(***************************************************************************)
EXTENDS Big, SequencesExt

FP == 160
FxOne == BShl(BOne, FP)
FxInt(n) == BShl(BInt(n), FP)
FxQ(n, d) == BDiv(FxInt(n), BInt(d))           \* n / d for TLC integers
FxBQ(n, d) == BDiv(BShl(n, FP), d)             \* n / d for big integers
FxMul(a, b) == BShr(BMul(a, b), FP)
FxDiv(a, b) == BDiv(BShl(a, FP), b)
FxSqrt(a) == BSqrt(BShl(a, FP))
FxScale(a, n, d) == BDiv(BMul(a, BInt(n)), BInt(d))
FxSum(u) == VSum(u)
FxDot(u, v) == BShr(VDot(u, v), FP)
VxMul(u, v) == VMul(u, v, FP)
VxScale(u, n, d) == VScale(u, BInt(n), BInt(d))  \* TLC integers n, d
VxTimes(c, u) == VScale(u, c, FxOne)             \* c fixed-point
VConst(c, n) == Force([i \in 1..n |-> c])
\* the elements that satisfy P
Filter(q, P(_)) == FoldLeft(LAMBDA a, x : IF P(x) THEN Append(a, x) ELSE a, <<>>, q)

\* 2^-k
FxEps(k) == BShl(BOne, FP - k)
\* |a - b| <= tol;   |a - b| <= tol * max(1, |b|)
FxNear(a, b, tol) == BLe(BAbs(BSub(a, b)), tol)
FxClose(a, b, tol) == BLe(BAbs(BSub(a, b)), FxMul(tol, BMax(FxOne, BAbs(b))))
VxNear(u, v, tol) == Len(u) = Len(v) /\ BLe(VMaxAbs(VSub(u, v)), tol)
VxClose(u, v, tol) == /\ Len(u) = Len(v)
                      /\ BLe(VMaxAbs(VSub(u, v)), FxMul(tol, BMax(FxOne, VMaxAbs(v))))

\* integer powers, factorials
FxPow(a, n) == FoldLeft(LAMBDA acc, i : FxMul(acc, a), FxOne, [i \in 1..n |-> i])
VxPow(u, n) == FoldLeft(LAMBDA acc, i : VxMul(acc, u), VConst(FxOne, Len(u)), [i \in 1..n |-> i])
BProd(s) == FoldLeft(LAMBDA acc, x : BMul(acc, x), BOne, s)
BFact(n) == BProd([i \in 1..n |-> BInt(i)])
BPow(a, n) == BProd([i \in 1..n |-> a])
BBinom(n, k) == IF k < 0 \/ k > n THEN BZero
                ELSE BDiv(BProd([i \in 1..k |-> BInt(n - k + i)]), BFact(k))

(* ---- elementary functions --------------------------------------------- *)
\* sum_{i<=N} c_i, with c_0 = x and c_{i+1} = Step(c_i, i)
FxSeries(x, Step(_, _), N) ==
    FoldLeft(LAMBDA acc, i : LET t == Step(acc[1], i) IN <<t, BAdd(acc[2], t)>>,
             <<x, x>>, [i \in 1..N |-> i])[2]
\* atanh(y), |y| <= 1/3:  sum y^(2i+1)/(2i+1)
FxAtanhSmall(y) ==
    LET y2 == FxMul(y, y)
        pw == FoldLeft(LAMBDA acc, i :
                 LET p == FxMul(acc[1], y2)
                 IN  <<p, BAdd(acc[2], BDiv(p, BInt(2 * i + 1)))>>,
                 <<y, y>>, [i \in 1..56 |-> i])
    IN  pw[2]
FxAtanSmall(y) ==                               \* |y| <= 1/2
    LET y2 == BNeg(FxMul(y, y))
        pw == FoldLeft(LAMBDA acc, i :
                 LET p == FxMul(acc[1], y2)
                 IN  <<p, BAdd(acc[2], BDiv(p, BInt(2 * i + 1)))>>,
                 <<y, y>>, [i \in 1..90 |-> i])
    IN  pw[2]
\* Machin
FxPi == BSub(BMul(BInt(16), FxAtanSmall(FxQ(1, 5))), BMul(BInt(4), FxAtanSmall(FxQ(1, 239))))
FxLn2 == BMul(BInt(2), FxAtanhSmall(FxQ(1, 3)))

\* ln(a), a > 0:  a = m 2^e with 3/4 <= m <= 3/2, ln m = 2 atanh((m-1)/(m+1))
RECURSIVE FxLnR(_, _)
FxLnR(m, e) ==
    IF BLt(FxQ(3, 2), m) THEN FxLnR(BShr(m, 1), e + 1)
    ELSE IF BLt(m, FxQ(3, 4)) THEN FxLnR(BShl(m, 1), e - 1)
    ELSE BAdd(BMul(BInt(e), FxLn2),
              BMul(BInt(2), FxAtanhSmall(FxDiv(BSub(m, FxOne), BAdd(m, FxOne)))))
FxLn(a) == FxLnR(a, 0)

\* exp(a): a = k ln 2 + r, 0 <= r < ln 2; exp(r) = exp(r/16)^16
FxToInt(a) == LET s == IF a = BZero THEN 0 ELSE
                       LET m == Tail(BShr(BAbs(a), FP))
                       IN  (IF Len(m) >= 1 THEN m[1] ELSE 0)
                           + (IF Len(m) >= 2 THEN m[2] * LB ELSE 0)
              IN IF a[1] < 0 THEN -s ELSE s
FxExp(a) ==
    LET kb == BDiv(a, FxLn2)
        k  == IF kb = BZero THEN 0 ELSE
              (IF kb[1] < 0 THEN -1 ELSE 1) * (kb[2] + (IF Len(kb) > 2 THEN kb[3] * LB ELSE 0))
        r  == BShr(BSub(a, BMul(kb, FxLn2)), 4)
        e0 == FoldLeft(LAMBDA acc, i : LET t == BDiv(FxMul(acc[1], r), BInt(i))
                                       IN  <<t, BAdd(acc[2], t)>>,
                       <<FxOne, FxOne>>, [i \in 1..32 |-> i])[2]
        e1 == FoldLeft(LAMBDA acc, i : FxMul(acc, acc), e0, <<1, 2, 3, 4>>)
    IN  IF k >= 0 THEN BShl(e1, k) ELSE BShr(e1, -k)

\* ln Gamma(x), x > 0: Stirling's series at x + 24
StirlingC == << <<1, 12>>, <<-1, 360>>, <<1, 1260>>, <<-1, 1680>>, <<1, 1188>>,
                <<-691, 360360>>, <<1, 156>>, <<-3617, 122400>>,
                <<43867, 244188>>, <<-174611, 125400>> >>
FxLnGamma(x) ==
    LET N  == 24
        z  == BAdd(x, FxInt(N))
        sh == FoldLeft(LAMBDA acc, i : FxMul(acc, BAdd(x, FxInt(i - 1))), FxOne,
                       [i \in 1..N |-> i])
        iz == FxDiv(FxOne, z)
        i2 == FxMul(iz, iz)
        st == FoldLeft(LAMBDA acc, i :
                  <<FxMul(acc[1], i2),
                    BAdd(acc[2], FxScale(acc[1], StirlingC[i][1], StirlingC[i][2]))>>,
                  <<iz, BZero>>, [i \in 1..10 |-> i])[2]
        hl == BShr(FxLn(BMul(BInt(2), FxPi)), 1)
    IN  BSub(BAdd(BAdd(BSub(FxMul(BSub(z, FxQ(1, 2)), FxLn(z)), z), hl), st), FxLn(sh))
FxGamma(x) == FxExp(FxLnGamma(x))
=============================================================================
