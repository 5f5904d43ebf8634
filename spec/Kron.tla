-------------------------------- MODULE Kron --------------------------------
(***************************************************************************)
(* Gauss-Kronrod pairs from first principles: the Gauss nodes are the roots *)
(* of P_n, the added nodes those of the Stieltjes polynomial E_{n+1}, which *)
(* is orthogonal, with weight P_n, to every polynomial of degree n; the     *)
(* weights are interpolatory.  All numbers are computed here.               *)
(***************************************************************************)
EXTENDS Elem
LegV(N, x) == Jacobi1(0, 0, 1, N, x)
LegVD(N, x) == Jacobi1D(0, 0, 1, N, x)
\* integral of P_n P_k P_j (0 unless a triangle with even perimeter)
Lam(m) == FxBQ(BBinom(2 * m, m), BPow(BInt(2), m))
Triple(n, k, j) ==
    LET s == (n + k + j) \div 2
    IN  IF (n + k + j) % 2 = 1 \/ s < n \/ s < k \/ s < j THEN BZero
        ELSE FxDiv(FxScale(FxMul(Lam(s - n), FxMul(Lam(s - k), Lam(s - j))), 2, (2 * s) + 1), Lam(s))
\* Legendre coefficients of E_{n+1}, as a sequence c[j + 1], j = 0..n+1
Stieltjes(n) ==
    LET ks == [i \in 1..((n + 1) \div 2) |-> (2 * i) - 1]
        start == [j \in 1..(n + 2) |-> IF j = n + 2 THEN FxOne ELSE BZero]
    IN  FoldLeft(LAMBDA c, k :
            LET r == FxSum(Force([j \in 1..(n + 2) |-> IF j - 1 > n - k THEN FxMul(c[j], Triple(n, k, j - 1)) ELSE BZero]))
            IN  [c EXCEPT ![n - k + 1] = BNeg(FxDiv(r, Triple(n, k, n - k)))],
            start, ks)
Comb(c, P) == FoldLeft(LAMBDA a, j : VAdd(a, VxTimes(c[j], P[j])), VConst(BZero, Len(P[1])), RG(1, Len(c)))
Val(c, x) == Comb(c, LegV(Len(c) - 1, x))
ValD(c, x) == LET P == LegVD(Len(c) - 1, x)
              IN  <<Comb(c, Force([j \in 1..Len(c) |-> P[j][1]])), Comb(c, Force([j \in 1..Len(c) |-> P[j][2]]))>>
\* an odd number of grid points, denser near the ends
KGrid(n) ==
    LET G == (12 * n) + 25
        u(k) == FxQ((2 * k) - G, G)
    IN  Force([k \in 1..(G + 1) |-> LET v == u(k - 1)
                              IN  BShr(FxMul(v, BSub(FxInt(3), FxMul(v, v))), 1)])
Step2(c, lo, hi, slo) ==
    LET m == Force([i \in 1..Len(lo) |-> BShr(BAdd(lo[i], hi[i]), 1)])
        f == Val(c, m)
    IN  <<Force([i \in 1..Len(lo) |-> IF BSign(f[i]) = slo[i] THEN m[i] ELSE lo[i]]),
          Force([i \in 1..Len(lo) |-> IF BSign(f[i]) = slo[i] THEN hi[i] ELSE m[i]])>>
Newton(c, x) == LET fd == ValD(c, x) IN Force([i \in 1..Len(x) |-> BSub(x[i], FxDiv(fd[1][i], fd[2][i]))])
\* the roots of the combination c in (-1, 1), ascending
Roots(c) ==
    LET g == KGrid(Len(c) - 1)
        v == Val(c, g)
        ch == Filter(RG(1, Len(g) - 1), LAMBDA k : BSign(v[k]) # BSign(v[k + 1]))
        lo0 == Force([i \in 1..Len(ch) |-> g[ch[i]]])
        hi0 == Force([i \in 1..Len(ch) |-> g[ch[i] + 1]])
        slo == Force([i \in 1..Len(ch) |-> BSign(v[ch[i]])])
        br == FoldLeft(LAMBDA a, i : Step2(c, a[1], a[2], slo), <<lo0, hi0>>, RG(1, 10))
        mid == Force([i \in 1..Len(ch) |-> BShr(BAdd(br[1][i], br[2][i]), 1)])
    IN  FoldLeft(LAMBDA x, i : Newton(c, x), mid, RG(1, 6))
\* [x: all nodes ascending, w: Kronrod weights, g: Gauss weights, 0 at added nodes]
KRule(n) ==
    LET pc == [j \in 1..(n + 1) |-> IF j = n + 1 THEN FxOne ELSE BZero]
        sc == Stieltjes(n)
        gx == Roots(pc)
        kx == Roots(sc)
        pg == ValD(pc, gx)
        pk == ValD(pc, kx)
        sg == ValD(sc, gx)
        sk == ValD(sc, kx)
        gam == FxQ(2, n + 1)
        gw(i) == FxDiv(FxInt(2), FxMul(BSub(FxOne, FxMul(gx[i], gx[i])), FxMul(pg[2][i], pg[2][i])))
        kg(i) == BAdd(gw(i), FxDiv(gam, FxMul(pg[2][i], sg[1][i])))
        kk(i) == FxDiv(gam, FxMul(pk[1][i], sk[2][i]))
        odd(m) == m % 2 = 1
    IN  Force([x |-> Force([m \in 1..((2 * n) + 1) |-> IF odd(m) THEN kx[(m + 1) \div 2] ELSE gx[m \div 2]]),
               w |-> Force([m \in 1..((2 * n) + 1) |-> IF odd(m) THEN kk((m + 1) \div 2) ELSE kg(m \div 2)]),
               g |-> Force([m \in 1..((2 * n) + 1) |-> IF odd(m) THEN BZero ELSE gw(m \div 2)])])
\* what makes it the pair of order n
Exact(x, w, D) == LET P == LegV(D, x)
                  IN  \A k \in 1..(D + 1) : FxNear(FxDot(w, P[k]), IF k = 1 THEN FxInt(2) ELSE BZero, FxEps(110))
KRuleOK(n, R) ==
    LET m == (2 * n) + 1
    IN  /\ Len(R.x) = m /\ Len(R.w) = m
        /\ \A i \in 1..(m - 1) : BLt(R.x[i], R.x[i + 1])
        /\ BLt(BNeg(FxOne), R.x[1]) /\ BLt(R.x[m], FxOne)
        /\ \A i \in 1..m : /\ BLt(BZero, R.w[i])
                           /\ FxNear(R.x[i], BNeg(R.x[m + 1 - i]), FxEps(120))
                           /\ FxNear(R.w[i], R.w[m + 1 - i], FxEps(110))
        /\ Exact(R.x, R.w, (3 * n) + 1) /\ Exact(R.x, R.g, (2 * n) - 1)
=============================================================================
