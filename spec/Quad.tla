-------------------------------- MODULE Quad --------------------------------
(***************************************************************************)
(* Quadrature rules: what the library offers, what it promises, and when a *)
(* recorded rule is exact.                                                 *)
(*                                                                         *)
(* A job names a rule:  fam, d (dimension), N (order), par (family         *)
(* specific integers).  Families:                                          *)
(*   jg jgs   Jacobi-Gauss, par = <<a, b, q>>: alpha=a/q, beta=b/q          *)
(*            (builtin / scipy backend)                                    *)
(*   lg lgs geg cheb   Legendre-, Gegenbauer-, Chebyshev-Gauss              *)
(*   jgl lgl  Gauss-Lobatto;  cc fejer: Clenshaw-Curtis, Fejer             *)
(*   kron krong: Kronrod rule and the Gauss rule embedded in it            *)
(*   xg vr js gm: simplex rules;  wv: hypercube rules                      *)
(*   zero: 0-dimensional;  lgtp lgltp: equal-order Legendre products       *)
(*   prod: product of the rules listed in par (jobs);  tr: a rule          *)
(*   transformed to the interval [par[1]/8, par[2]/8]                      *)
(***************************************************************************)
EXTENDS Ortho, TLC

J(fam, d, N, par) == [fam |-> fam, d |-> d, N |-> N, par |-> par]

XGMax(d) == CASE d = 2 -> 50 [] d = 3 -> 15 [] OTHER -> 0
VRMax(d) == CASE d = 2 -> 20 [] d = 3 -> 10 [] OTHER -> -1
JSMax(d) == IF d = 3 THEN 19 ELSE -1
WVMax(d) == CASE d = 2 -> 21 [] d = 3 -> 11 [] OTHER -> -1

\* is the rule available (must constructing it succeed)?
RECURSIVE Offered(_)
Offered(j) ==
    CASE j.fam = "xg" -> j.N >= 1 /\ j.N <= XGMax(j.d)
      [] j.fam = "vr" -> j.N >= 0 /\ j.N <= VRMax(j.d)
      [] j.fam = "js" -> j.N >= 0 /\ j.N <= JSMax(j.d)
      [] j.fam = "wv" -> j.N >= 1 /\ j.N <= WVMax(j.d) /\ j.N % 2 = 1
      [] j.fam = "gm" -> j.N >= 0
      [] j.fam = "jg" -> j.N >= 0 /\ (j.par[1] + j.par[2] # -j.par[3] \/ j.par[1] = j.par[2])
      [] j.fam \in {"jgl", "lgl", "lgltp", "cc"} -> j.N >= 1
      [] j.fam = "fejer" -> j.N >= j.par[1]
      [] j.fam \in {"kron", "krong"} -> j.N >= 1
      [] j.fam = "prod" -> \A k \in DOMAIN j.par : Offered(j.par[k])
      [] OTHER -> j.N >= 0

\* the degree the documentation promises (INF: all; NONE: no statement)
INF == 1000000
NONE == -1
RECURSIVE Promised(_)
Promised(j) ==
    CASE j.fam \in {"jg", "jgs", "lg", "lgs", "geg", "gegs", "cheb", "chebs", "lgtp", "gm"} -> 2 * j.N + 1
      [] j.fam \in {"jgl", "lgl", "lgltp"} -> 2 * j.N - 1
      [] j.fam = "cc" -> j.N
      [] j.fam = "kron" -> 3 * j.N + 1
      [] j.fam = "krong" -> 2 * j.N - 1
      [] j.fam \in {"xg", "vr", "js", "wv"} -> j.N
      [] j.fam = "zero" -> INF
      [] j.fam = "fejer" -> NONE
      [] j.fam = "tr" -> Promised(j.par[3])
      [] j.fam = "prod" ->
            IF \E k \in DOMAIN j.par : Promised(j.par[k]) = NONE THEN NONE
            ELSE FoldLeft(LAMBDA a, x : Min2(a, Promised(x)), INF, j.par)
      [] OTHER -> NONE
\* Fejer rules declare nothing, but they are interpolatory
Interpolatory(j) == IF j.fam = "fejer" THEN j.N - j.par[1] ELSE NONE

(* ---- exactness of a recorded rule -------------------------------------- *)
(* dom: dimensions of the simplex factors of the domain; X: coordinate      *)
(* vectors, w: weights.  Exact for all products of the factors' orthogonal  *)
(* polynomials phi with the given indices?  The tolerance is relative to    *)
(* sum |w| (1 + |phi|); it is larger for weights that are singular enough   *)
(* for the rounding of the outermost node to matter (alpha or beta < -1/2). *)
QTolBits == 41
VAbs(u) == Force([i \in 1..Len(u) |-> BAbs(u[i])])
SumOKT(w, v, exact, bits) ==
    LET s == FxDot(w, v)
        m == BAdd(FxDot(VAbs(w), VAbs(v)), VSum(VAbs(w)))
    IN  BLe(BAbs(BSub(s, exact)), BShr(m, bits))
SumOK(w, v, exact) == SumOKT(w, v, exact, QTolBits)
BadIdx(fs, idxs, X, w) ==
    LET fac == TPFac(fs, X)
        vol == TPVol(fs)
        n0  == Len(w)
        zero == FxInt(0)
    IN  Filter(idxs, LAMBDA idx :
            ~SumOK(w, TPVal(fac, fs, idx, n0),
                   IF \A k \in DOMAIN idx : idx[k] = 0 THEN vol ELSE zero))
\* all indices of total degree <= D on a product domain
TotalIdx(dom, D) ==
    LET fs == [k \in DOMAIN dom |-> <<dom[k], D>>]
    IN  IF Len(dom) <= 1 THEN TPIdx(fs)
        ELSE Filter(TPIdx(fs), LAMBDA idx : IdxSum(idx) <= D)
ExactTotal(dom, D, X, w) ==
    BadIdx([k \in DOMAIN dom |-> <<dom[k], D>>], TotalIdx(dom, D), X, w) = <<>>
ExactSpace(fs, X, w) == BadIdx(fs, TPIdx(fs), X, w) = <<>>
\* weighted rules on [-1, 1]
ExactJacobi(a, b, q, D, x, w) ==
    LET P == Jacobi1(a, b, q, D, x)
        M == JMass(a, b, q)
        bits == IF 2 * Min2(a, b) < -q THEN 36 ELSE QTolBits
        \* large parameters: polynomials whose norm grows with the degree are scaled to that of P_0,
        \* as P_{N+1} vanishes at the nodes but for rounding
        sc(n) == LET r == JNormRatio(a, b, q, n)
                 IN  FxSqrt(BMax(FxOne, FxBQ(r[1], r[2])))
        V(n) == IF a + b <= 40 * q THEN P[n] ELSE VScale(P[n], FxOne, sc(n - 1))
    IN  \A n \in 1..(D + 1) : SumOKT(w, V(n), IF n = 1 THEN M ELSE BZero, bits)
=============================================================================
