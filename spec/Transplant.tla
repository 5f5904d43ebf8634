----------------------------- MODULE Transplant -----------------------------
(***************************************************************************)
(* Transplantation maps of [-1, 1] and their derivatives.  A map is         *)
(* [m |-> name, p |-> parameter], p a degree, or a dyadic number            *)
(* <<numerator, halvings>>.  Evaluated on vectors: <<g, g'>>.               *)
(***************************************************************************)
EXTENDS Elem
Dy(p) == FxQ(p[1], 2 ^ p[2])
FxAtan(y) ==      \* any y: halve the angle three times
    LET h(t) == FxDiv(t, BAdd(FxOne, FxSqrt(BAdd(FxOne, FxMul(t, t)))))
    IN  BShl(FxAtanSmall(h(h(h(y)))), 3)
FxAsin(x) == LET c == BSub(FxOne, FxMul(x, x))
             IN  IF c = BZero THEN FxScale(FxPi, BSign(x), 2) ELSE FxAtan(FxDiv(x, FxSqrt(c)))
FxAtanh(r) == BShr(BSub(FxLn(BAdd(FxOne, r)), FxLn(BSub(FxOne, r))), 1)

(* odd Taylor polynomial of arcsin of degree n, normalised *)
SCoef(k) == FxBQ(BBinom(2 * k, k), BMul(BPow(BInt(4), k), BInt((2 * k) + 1)))
Sausage(n, s) ==
    LET m == (n + 1) \div 2
        c == Force([k \in 1..m |-> SCoef(k - 1)])
        tot == FxSum(c)
        s2 == VxMul(s, s)
        one == VConst(FxOne, Len(s))
        \* running power s^(2k-2)
        acc == FoldLeft(LAMBDA a, k : <<VxMul(a[1], s2), VAdd(a[2], VxTimes(c[k], a[1])),
                                        VAdd(a[3], VxTimes(FxScale(c[k], (2 * k) - 1, 1), a[1]))>>,
                        <<one, VConst(BZero, Len(s)), VConst(BZero, Len(s))>>, RG(1, m))
        inv == FxDiv(FxOne, tot)
    IN  <<VxTimes(inv, VxMul(s, acc[2])), VxTimes(inv, acc[3])>>

(* arcsin(a s) / arcsin(a) *)
AlphaOf(rho) == FxDiv(FxInt(2), BAdd(rho, FxDiv(FxOne, rho)))
KTE(a, s) ==
    LET d == FxAsin(a)
        root(x) == FxSqrt(BSub(FxOne, FxMul(FxMul(a, a), FxMul(x, x))))
    IN  <<Force([i \in 1..Len(s) |-> FxDiv(FxAsin(FxMul(a, s[i])), d)]),
          Force([i \in 1..Len(s) |-> FxDiv(a, FxMul(d, root(s[i])))])>>

(* Chebyshev polynomials T_0..T_n and their derivatives *)
Cheb(n, s) ==
    LET one == VConst(FxOne, Len(s))
        zero == VConst(BZero, Len(s))
        s2 == VxScale(s, 2, 1)
        Step(acc, k) == Append(acc, <<VSub(VxMul(s2, acc[k][1]), acc[k - 1][1]),
                                      VSub(VAdd(VxScale(acc[k][1], 2, 1), VxMul(s2, acc[k][2])), acc[k - 1][2])>>)
    IN  FoldLeft(LAMBDA a, k : Force(Step(a, k)), << <<one, zero>>, <<s, one>> >>, RG(2, n))
\* powers rho^(-e), for the exponents that matter
RhoPow(rho, e) == FxExp(BNeg(FxMul(FxInt(e), FxLn(rho))))
Relevant(rho, e) == BLt(FxMul(FxInt(e), FxLn(rho)), FxInt(100))
NTerms(rho) == Max2(1, Len(SelectSeq([k \in 1..60 |-> k], LAMBDA k : Relevant(rho, 4 * k * k))))
(* with z = arcsin s and nome rho^-4, k^(1/2) sn(2 K z / pi) = theta_1(z) / theta_4(z) =: r, where   *)
(* theta_1 = 2/rho sum rho^(-4n(n+1)) T_{2n+1}(s),  theta_4 = 1 + 2 sum rho^(-4n^2) T_{2n}(s)        *)
StripR(rho, s) ==
    LET N == NTerms(rho)
        T == Cheb((2 * N) + 1, s)
        a1 == Force([n \in 1..(N + 1) |-> FxMul(FxDiv(FxInt(2), rho), RhoPow(rho, 4 * n * (n - 1)))])
        a4 == Force([n \in 1..N |-> BShl(RhoPow(rho, 4 * n * n), 1)])
        sum1(q) == FoldLeft(LAMBDA a, n : VAdd(a, VxTimes(a1[n], T[2 * n][q])), VConst(BZero, Len(s)), RG(1, N + 1))
        sum4(q) == FoldLeft(LAMBDA a, n : VAdd(a, VxTimes(a4[n], T[(2 * n) + 1][q])), VConst(IF q = 1 THEN FxOne ELSE BZero, Len(s)), RG(1, N))
    IN  Force(<<sum1(1), sum4(1), sum1(2), sum4(2)>>)
\* arctanh(r) = (ln(t4 + t1) - ln(t4 - t1)) / 2, its derivative (t1' t4 - t1 t4') / (t4^2 - t1^2)
Strip(rho, s) ==
    LET t == StripR(rho, s)
        u == StripR(rho, <<FxOne>>)
        ath(a, b) == BShr(FxLn(FxDiv(BAdd(b, a), BSub(b, a))), 1)
        c == ath(u[1][1], u[2][1])
        der(i) == FxDiv(BSub(FxMul(t[3][i], t[2][i]), FxMul(t[1][i], t[4][i])),
                        FxMul(BAdd(t[2][i], t[1][i]), BSub(t[2][i], t[1][i])))
    IN  <<Force([i \in 1..Len(s) |-> FxDiv(ath(t[1][i], t[2][i]), c)]),
          Force([i \in 1..Len(s) |-> FxDiv(der(i), c)])>>
(* the same by theta functions of the complementary nome exp(-2Y), Y = pi^2 / (8 ln rho): with        *)
(* y = 2Y/pi arcsin s, arctanh r = y + ln(B(y) / B(-y)) / 2,                                           *)
(* B(y) = sum exp(-2n(n+1)Y + ((-1)^n (2n+1) - 1) y); for narrow strips (interior points, if <<g, g'>>)*)
StripN(rho, s) ==
    LET Y == FxDiv(FxMul(FxPi, FxPi), BShl(FxLn(rho), 3))
        N == Max2(2, Len(SelectSeq([k \in 1..60 |-> k], LAMBDA k : BLt(FxScale(Y, (2 * k * (k + 1)) - (2 * k) - 2, 1), FxInt(110)))) + 1)
        sl(n) == IF n % 2 = 0 THEN 2 * n ELSE -((2 * n) + 2)
        ex(n, y) == FxExp(BAdd(FxScale(Y, -2 * n * (n + 1), 1), FxScale(y, sl(n), 1)))
        B(y) == LET t == Force([n \in 1..N |-> ex(n - 1, y)])
                IN  Force(<<FxSum(t), FxSum(Force([n \in 1..N |-> FxScale(t[n], sl(n - 1), 1)]))>>)
        F(y) == LET p == B(y)
                    q == B(BNeg(y))
                IN  Force(<<BAdd(y, BShr(FxLn(FxDiv(p[1], q[1])), 1)),
                      BAdd(FxOne, BShr(BAdd(FxDiv(p[2], p[1]), FxDiv(q[2], q[1])), 1))>>)
        sc == FxDiv(BShl(Y, 1), FxPi)
        f == Force([i \in 1..Len(s) |-> F(FxMul(sc, FxAsin(s[i])))])
        c == F(Y)[1]
        dy(x) == LET w == BSub(FxOne, FxMul(x, x)) IN IF w = BZero THEN BZero ELSE FxDiv(sc, FxSqrt(w))
    IN  <<Force([i \in 1..Len(s) |-> FxDiv(f[i][1], c)]),
          Force([i \in 1..Len(s) |-> FxDiv(FxMul(f[i][2], dy(s[i])), c)])>>
Narrow(rho) == BLt(rho, FxQ(9, 8))
MapOf(m, s) ==
    CASE m.m = "identity" -> <<s, VConst(FxOne, Len(s))>>
      [] m.m = "sausage" -> Sausage(m.p[1], s)
      [] m.m = "kte-alpha" -> KTE(Dy(m.p), s)
      [] m.m = "kte-rho" -> KTE(AlphaOf(Dy(m.p)), s)
      \* maps a user writes: s -> (a s + b)/8 with a constant derivative, and s (c + (8 - c) s^2)/8
      [] m.m = "affine" -> <<Force([i \in 1..Len(s) |-> BAdd(FxMul(FxQ(m.p[1], 8), s[i]), FxQ(m.p[2], 8))]), VConst(FxQ(m.p[1], 8), Len(s))>>
      [] m.m = "cubic" -> LET c == FxQ(m.p[1], 8)
                              d == FxQ(8 - m.p[1], 8)
                          IN  <<Force([i \in 1..Len(s) |-> FxMul(s[i], BAdd(c, FxMul(d, FxMul(s[i], s[i]))))]),
                                Force([i \in 1..Len(s) |-> BAdd(c, FxMul(FxMul(FxInt(3), d), FxMul(s[i], s[i])))])>>
      [] OTHER -> IF Narrow(Dy(m.p)) THEN StripN(Dy(m.p), s) ELSE Strip(Dy(m.p), s)
\* parameters the maps accept
Valid(m) ==
    CASE m.m \in {"identity", "affine", "cubic"} -> TRUE
      [] m.m = "sausage" -> m.p[1] > 0 /\ m.p[1] % 2 = 1
      [] m.p[2] < 0 -> FALSE                                 \* <<., -1>> infinite, <<0, -2>> not a number
      [] m.m = "kte-alpha" -> m.p[1] > 0 /\ BLt(Dy(m.p), FxOne)
      [] OTHER -> BLt(FxOne, Dy(m.p))
=============================================================================
