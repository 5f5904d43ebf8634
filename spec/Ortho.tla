------------------------------- MODULE Ortho -------------------------------
(***************************************************************************)
(* The orthogonal polynomials on the reference elements, evaluated in      *)
(* fixed point at vectors of points by their three-term recurrences in     *)
(* homogeneous form (no division, so that the collapsed vertices of the    *)
(* simplex are ordinary points).  They serve two purposes:                 *)
(*  - as well-conditioned test functions spanning all polynomials of a     *)
(*    given degree: a quadrature rule is exact to degree D iff it maps all *)
(*    of degree <= D to their integrals, 0 except for the constant;        *)
(*  - as the functions the library's bases must be equal to.               *)
(* OrthoMC.tla checks with exact rational arithmetic that they are what    *)
(* they are claimed to be.                                                 *)
(*                                                                         *)
(* A point set is given by its coordinate vectors X[1..d] (biunit, i.e.    *)
(* the simplex has vertices -1,..,-1 and -1,..,1,..-1).                    *)
(***************************************************************************)
EXTENDS Fx

\* coefficients of the recurrence of P_n^(a/q, b/q):
\*   P_n = (c1 x P_{n-1} + c2 P_{n-1} - c3 P_{n-2}) / c0
JRec(a, b, q, n) ==
    LET s == a + b
        I(x) == BInt(x)
        m == 2 * n * q + s
    IN  << BMul(BMul(I(2 * n), I(n * q + s)), BMul(I(m - 2 * q), I(q))),
           BMul(BMul(I(m - q), I(m)), I(m - 2 * q)),
           BMul(I(m - q), BMul(I(a - b), I(a + b))),
           BMul(BMul(I(2), I(n * q + a - q)), BMul(I(n * q + b - q), I(m))) >>

(* All P_0..P_N, homogeneous: S^n P_n(U/S), with the derivatives along a    *)
(* direction in which U and S change by the rational numbers dU and dS,     *)
(* given as <<numerator, denominator>>.  Returns a sequence of pairs        *)
(* <<value, derivative>>.                                                   *)
JacobiH(a, b, q, N, U, S, dU, dS) ==
    LET n0  == Len(U)
        one == VConst(FxOne, n0)
        zero == VConst(BZero, n0)
        S2  == VxMul(S, S)
        SdS == VxScale(S, 2 * dS[1], dS[2])
        \* P_1 = ((a-b) S + (a+b+2q) U) / (2q)
        p1  == VAdd(VxScale(S, a - b, 2 * q), VxScale(U, a + b + 2 * q, 2 * q))
        d1  == VConst(BAdd(FxScale(FxQ(dS[1], dS[2]), a - b, 2 * q),
                           FxScale(FxQ(dU[1], dU[2]), a + b + 2 * q, 2 * q)), n0)
        Step(acc, n) ==
            LET c == JRec(a, b, q, n)
                p == acc[n]
                o == acc[n - 1]
                v == VSub(VAdd(VScale(VxMul(U, p[1]), c[2], c[1]),
                               VScale(VxMul(S, p[1]), c[3], c[1])),
                          VScale(VxMul(S2, o[1]), c[4], c[1]))
                dp == VAdd(VxScale(p[1], dU[1], dU[2]), VxMul(U, p[2]))
                dq == VAdd(VxScale(p[1], dS[1], dS[2]), VxMul(S, p[2]))
                do == VAdd(VxMul(SdS, o[1]), VxMul(S2, o[2]))
                dv == VSub(VAdd(VScale(dp, c[2], c[1]), VScale(dq, c[3], c[1])),
                           VScale(do, c[4], c[1]))
            IN  Append(acc, <<v, dv>>)
        base == IF N = 0 THEN << <<one, zero>> >> ELSE << <<one, zero>>, <<p1, d1>> >>
    IN  FoldLeft(Step, base, [i \in 1..Max2(N - 1, 0) |-> i + 1])

\* values only
JacobiV(a, b, q, N, U, S) ==
    LET n0  == Len(U)
        S2  == VxMul(S, S)
        p1  == VAdd(VxScale(S, a - b, 2 * q), VxScale(U, a + b + 2 * q, 2 * q))
        Step(acc, n) ==
            LET c == JRec(a, b, q, n)
                v == VSub(VAdd(VScale(VxMul(U, acc[n]), c[2], c[1]),
                               VScale(VxMul(S, acc[n]), c[3], c[1])),
                          VScale(VxMul(S2, acc[n - 1]), c[4], c[1]))
            IN  Append(acc, v)
        base == IF N = 0 THEN <<VConst(FxOne, n0)>> ELSE <<VConst(FxOne, n0), p1>>
    IN  FoldLeft(Step, base, [i \in 1..Max2(N - 1, 0) |-> i + 1])

\* P_0^(a/q,b/q)(x) .. P_N
Jacobi1(a, b, q, N, x) == JacobiV(a, b, q, N, x, VConst(FxOne, Len(x)))
Jacobi1D(a, b, q, N, x) ==
    JacobiH(a, b, q, N, x, VConst(FxOne, Len(x)), <<1, 1>>, <<0, 1>>)

\* squared norm of P_n^(a/q,b/q): rational multiple of the mass M of the weight
\*  h_n / h_0 = prod_{k=1..n} (2k+s-1)(k+a)(k+b) / ((2k+s+1) k (k+s))   (s=a+b)
\*  except that for k = 1 the factors (1+s) cancel
JNormRatio(a, b, q, n) ==
    LET s == a + b
        F(k) == IF k = 1
                THEN << BMul(BInt(q + a), BInt(q + b)), BMul(BInt(3 * q + s), BInt(q)) >>
                ELSE << BMul(BMul(BInt(2 * k * q + s - q), BInt(k * q + a)), BInt(k * q + b)),
                        BMul(BMul(BInt(2 * k * q + s + q), BInt(k * q)), BInt(k * q + s)) >>
    IN  FoldLeft(LAMBDA acc, k : <<BMul(acc[1], F(k)[1]), BMul(acc[2], F(k)[2])>>,
                 <<BOne, BOne>>, [i \in 1..n |-> i])
\* mass of the weight: 2^(a+b+1) B(a+1, b+1), parameters in units of 1/q
JMass(a, b, q) ==
    LET x == FxQ(a + q, q)
        y == FxQ(b + q, q)
    IN  FxExp(BAdd(FxMul(FxQ(a + b + q, q), FxLn2),
                   BSub(BAdd(FxLnGamma(x), FxLnGamma(y)), FxLnGamma(BAdd(x, y)))))

(* ---- simplex ----------------------------------------------------------- *)
(* phi_(i1..id) = prod_m S_m^{i_m} P_{i_m}^{(2 (i_1+..+i_{m-1}) + m-1, 0)}   *)
(*                (U_m / S_m),  S_m = 1 - sum_{l>m} t_l,  U_m = 2 t_m - S_m *)
(* with t = (1+r)/2; its squared norm over the biunit simplex is            *)
(*    2^d prod_m 1 / (2 (i_1+..+i_m) + m).                                  *)

RECURSIVE IdxSum(_)
IdxSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + IdxSum(Tail(s))

\* all indices of total degree <= N, first component fastest (the library's order)
RECURSIVE IdxList(_, _)
IdxList(d, N) ==
    IF d = 0 THEN << <<>> >>
    ELSE FlattenSeq(Force([k \in 1..(N + 1) |->
            LET sub == IdxList(d - 1, N - k + 1)
            IN  [j \in 1..Len(sub) |-> Append(sub[j], k - 1)]]))

SimplexS(d, X, m) ==
    LET n0 == Len(X[1])
        tl == FoldLeft(LAMBDA acc, l : VAdd(acc, VAdd(VConst(FxOne, n0), X[l])),
                       VConst(BZero, n0), [i \in 1..(d - m) |-> m + i])
    IN  VSub(VConst(FxOne, n0), VxScale(tl, 1, 2))
SimplexU(d, X, m) == VSub(VAdd(VConst(FxOne, Len(X[1])), X[m]), SimplexS(d, X, m))

\* Fac[m][p+1][n+1]: degree n factor m after partial degree p
SimplexFac(d, N, X) == Force(
    [m \in 1..d |->
        LET U == SimplexU(d, X, m)
            S == SimplexS(d, X, m)
        IN  [p \in 1..(IF m = 1 THEN 1 ELSE N + 1) |->
                JacobiV(2 * (p - 1) + m - 1, 0, 1, N - p + 1, U, S)]])
\* values of phi_idx given the factors
SimplexVal(fac, d, idx, n0) ==
    FoldLeft(LAMBDA acc, m :
                 LET p == IdxSum(SubSeq(idx, 1, m - 1))
                 IN  VxMul(acc, fac[m][p + 1][idx[m] + 1]),
             VConst(FxOne, n0), [i \in 1..d |-> i])
\* the same with derivatives along axis l
SimplexFacD(d, N, X, l) == Force(
    [m \in 1..d |->
        LET U == SimplexU(d, X, m)
            S == SimplexS(d, X, m)
            dU == IF l = m THEN <<1, 1>> ELSE IF l > m THEN <<1, 2>> ELSE <<0, 1>>
            dS == IF l > m THEN <<-1, 2>> ELSE <<0, 1>>
        IN  [p \in 1..(IF m = 1 THEN 1 ELSE N + 1) |->
                JacobiH(2 * (p - 1) + m - 1, 0, 1, N - p + 1, U, S, dU, dS)]])
SimplexDer(facd, d, idx, n0) ==
    FoldLeft(LAMBDA acc, m :
                 LET p == IdxSum(SubSeq(idx, 1, m - 1))
                     f == facd[m][p + 1][idx[m] + 1]
                 IN  <<VxMul(acc[1], f[1]),
                       VAdd(VxMul(acc[2], f[1]), VxMul(acc[1], f[2]))>>,
             <<VConst(FxOne, n0), VConst(BZero, n0)>>, [i \in 1..d |-> i])
\* squared norm <<num, den>> as big integers
SimplexNorm2(idx) ==
    LET d == Len(idx)
    IN  << BPow(BInt(2), d),
           BProd([m \in 1..d |-> BInt(2 * IdxSum(SubSeq(idx, 1, m)) + m)]) >>

(* ---- products of simplices ------------------------------------------- *)
(* A product element is a sequence of factors <<dim, order>>; its indices  *)
(* are the concatenations of the factors' indices, first factor fastest.   *)
RECURSIVE TPIdx(_)
TPIdx(fs) ==
    IF fs = <<>> THEN << <<>> >>
    ELSE LET hd == IdxList(Head(fs)[1], Head(fs)[2])
             tl == TPIdx(Tail(fs))
         IN  FlattenSeq(Force([k \in 1..Len(tl) |-> [j \in 1..Len(hd) |-> hd[j] \o tl[k]]]))
RECURSIVE TPDim(_)
TPDim(fs) == IF fs = <<>> THEN 0 ELSE Head(fs)[1] + TPDim(Tail(fs))
TPStart(fs, k) == TPDim(SubSeq(fs, 1, k - 1))       \* axes before factor k
TPSub(fs, k, x) == SubSeq(x, TPStart(fs, k) + 1, TPStart(fs, k) + fs[k][1])
TPFac(fs, X) == Force([k \in 1..Len(fs) |-> SimplexFac(fs[k][1], fs[k][2], TPSub(fs, k, X))])
TPVal(fac, fs, idx, n0) ==
    FoldLeft(LAMBDA acc, k : VxMul(acc, SimplexVal(fac[k], fs[k][1], TPSub(fs, k, idx), n0)),
             VConst(FxOne, n0), [i \in 1..Len(fs) |-> i])
\* factor that owns axis l
TPOwner(fs, l) == CHOOSE k \in 1..Len(fs) : TPStart(fs, k) < l /\ l <= TPStart(fs, k) + fs[k][1]
TPFacD(fs, X, l) == LET k == TPOwner(fs, l)
                    IN  SimplexFacD(fs[k][1], fs[k][2], TPSub(fs, k, X), l - TPStart(fs, k))
\* derivative along axis l, given the factors and those of the owner
TPDer(fac, facd, fs, idx, l, n0) ==
    LET o == TPOwner(fs, l)
    IN  FoldLeft(LAMBDA acc, k :
                    VxMul(acc, IF k = o
                               THEN SimplexDer(facd, fs[k][1], TPSub(fs, k, idx), n0)[2]
                               ELSE SimplexVal(fac[k], fs[k][1], TPSub(fs, k, idx), n0)),
                 VConst(FxOne, n0), [i \in 1..Len(fs) |-> i])
TPNorm2(fs, idx) ==
    FoldLeft(LAMBDA acc, k : LET n == SimplexNorm2(TPSub(fs, k, idx))
                             IN  <<BMul(acc[1], n[1]), BMul(acc[2], n[2])>>,
             <<BOne, BOne>>, [i \in 1..Len(fs) |-> i])
FxNorm(n2) == FxSqrt(FxBQ(n2[1], n2[2]))
\* volume of the element
TPVol(fs) == FoldLeft(LAMBDA acc, k : BDiv(BMul(acc, BPow(BInt(2), fs[k][1])), BFact(fs[k][1])),
                      FxOne, [i \in 1..Len(fs) |-> i])
=============================================================================
