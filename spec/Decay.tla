------------------------------- MODULE Decay -------------------------------
(***************************************************************************)
(* Modal decay.  Magnitudes are exact: squares of recorded coefficients in *)
(* units of 2^-320, the sum with the baseline in units of 2^-640.          *)
(***************************************************************************)
EXTENDS Elem
Degrees(d, n) == LET L == IdxList(d, n) IN Force([i \in 1..Len(L) |-> IdxSum(L[i])])
\* running maximum from the end of the listing; the last one is at least its predecessor
MaxFrom(u, i) == FoldLeft(LAMBDA a, x : BMax(a, x), u[i], SubSeq(u, i, Len(u)))
Skyline(u) == LET n == Len(u) IN [i \in 1..n |-> MaxFrom(u, IF i = n THEN n - 1 ELSE i)]
SkylineF(u) ==     \* the same in one pass
    LET n == Len(u)
        s == FoldLeft(LAMBDA acc, k : <<BMax(acc[1], u[n + 1 - k]), <<BMax(acc[1], u[n + 1 - k])>> \o acc[2]>>,
                      <<BMax(u[n], u[n - 1]), <<>> >>, [k \in 1..n |-> k])
    IN  Force(s[2])
\* ln of a large or small fixed-point number m 2^e
RECURSIVE LnBig(_, _)
LnBig(m, e) == IF BLt(BShl(FxOne, 64), m) THEN LnBig(BShr(m, 48), e + 48)
               ELSE IF BLt(m, FxEps(64)) THEN LnBig(BShl(m, 48), e - 48) ELSE FxLnR(m, e)
\* ln of the fitted magnitudes
LnMag(c, d, n, ign) ==
    LET sky == SkylineF(Force([i \in 1..Len(c) |-> BMul(c[i], c[i])]))      \* 2^-320
        nrm == VSum(sky)
        nrm2 == BMul(nrm, nrm)                                             \* 2^-640
        k == SubSeq(Degrees(d, n), ign + 1, Len(c))
        kp(i) == IF k[i] = 0 THEN BOne ELSE BPow(BInt(k[i]), 2 * n)
        K == Force([i \in 1..Len(k) |-> kp(i)])
        \* sum of k^-2n in units of 2^-600
        sigma == FoldLeft(LAMBDA a, i : BAdd(a, BDiv(BShl(BOne, 600), K[i])), BZero, RG(1, Len(k)))
    IN  Force([i \in 1..Len(k) |->
            LET base == BDiv(BShl(nrm2, 600), BMul(K[i], sigma))
                m == BAdd(BShl(sky[ign + i], 320), base)
            IN  BShr(LnBig(m, -480), 1)])
\* least squares fit of const + exponent * ln k (the smallest one if not unique)
Fit(y, k) ==
    LET n == Len(y)
        uniq == Force([v \in {k[i] : i \in 1..n} |-> IF v <= 1 THEN BZero ELSE FxLn(FxInt(v))])
        x == Force([i \in 1..n |-> uniq[k[i]]])
        same == \A i \in 1..n : x[i] = x[1]
        mx == FxScale(FxSum(x), 1, n)
        my == FxScale(FxSum(y), 1, n)
        cx == VSub(x, VConst(mx, n))
        b == FxDiv(FxDot(cx, VSub(y, VConst(my, n))), FxDot(cx, cx))
        s == BAdd(FxOne, FxMul(x[1], x[1]))
    IN  IF same THEN <<FxDiv(my, s), FxDiv(FxMul(my, x[1]), s)>>
        ELSE <<BSub(my, FxMul(b, mx)), b>>
=============================================================================
