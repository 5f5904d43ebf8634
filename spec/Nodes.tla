------------------------------- MODULE Nodes -------------------------------
(***************************************************************************)
(* Interpolation nodes.  Everything is written in barycentric coordinates: *)
(* the node with integer tuple t of order N on the d-simplex has the       *)
(* coordinates L_0 = 1 - sum(t)/N, L_l = t_l / N, and warp & blend         *)
(* (Warburton 2006) displaces it along the edges.                          *)
(***************************************************************************)
EXTENDS Elem

(* ---- one dimension ------------------------------------------------------ *)
\* Legendre polynomials and derivatives at x: sequence of <<P_n, P_n'>>
Leg(n, x) == Jacobi1D(0, 0, 1, n, x)
\* one Newton step towards the roots of (1 - x^2) P_n'(x) (n >= 2); the end points stay
LobattoStep(n, x) ==
    LET L == Leg(n, x)
        p == L[n + 1][1]
        dp == L[n + 1][2]
        one == VConst(FxOne, Len(x))
        x2 == VxMul(x, x)
        \* (1-x^2) P_n'' = 2x P_n' - n(n+1) P_n
        num == VxMul(VSub(one, x2), dp)
        den == VxScale(p, -(n * (n + 1)), 1)     \* d/dx of (1-x^2) P_n'
    IN  Force([i \in 1..Len(x) |-> BSub(x[i], FxDiv(num[i], den[i]))])
GaussStep(n, x) ==
    LET L == Leg(n + 1, x)
    IN  Force([i \in 1..Len(x) |-> BSub(x[i], FxDiv(L[n + 2][1][i], L[n + 2][2][i]))])
Polish(Step(_, _), n, x) == Step(n, Step(n, x))
Ascending(x) == \A i \in 1..(Len(x) - 1) : BLt(BAdd(x[i], FxEps(30)), x[i + 1])
\* x are the Gauss-Lobatto / Gauss nodes of order n, ascending
IsLobatto(n, x, tol) == /\ Len(x) = n + 1 /\ (n >= 1 => Ascending(x))
                        /\ VxNear(Polish(LobattoStep, n, x), x, tol)
                        /\ n >= 1 => /\ BLe(BAbs(BAdd(x[1], FxOne)), tol) /\ BLe(BAbs(BSub(x[n + 1], FxOne)), tol)
IsGauss(n, x, tol) == Len(x) = n + 1 /\ Ascending(x) /\ VxNear(Polish(GaussStep, n, x), x, tol)

(* ---- warp & blend -------------------------------------------------------- *)
AlphaTab(d) ==     \* in units of 10^-5
    CASE d = 2 -> <<0, 0, 141520, 10010, 27510, 98000, 109990, 128320, 136480, 147730, 149590, 157430, 157700, 162230, 162580>>
      [] d = 3 -> <<0, 0, 0, 10020, 113320, 156080, 134130, 125770, 116030, 110153, 60800, 45230, 88560, 87170, 96550>>
Alpha(d, n) == IF n <= 15 THEN FxQ(AlphaTab(d)[n], 100000) ELSE IF d = 2 THEN FxQ(5, 3) ELSE FxOne
\* the warp function: interpolates (Lobatto - equispaced) at the equispaced nodes,
\* divided by 1 - r^2 (0 at the ends)
Warp(n, lob, r) ==
    LET eq(i) == FxQ((2 * (i - 1)) - n, n)
        n0 == Len(r)
        lag(i) == LET den == FoldLeft(LAMBDA a, j : IF j = i THEN a ELSE FxMul(a, BSub(eq(i), eq(j))), FxOne, RG(1, n + 1))
                      num == FoldLeft(LAMBDA a, j : IF j = i THEN a ELSE VxMul(a, VSub(r, VConst(eq(j), n0))), VConst(FxOne, n0), RG(1, n + 1))
                  IN  VxTimes(FxDiv(BSub(lob[i], eq(i)), den), num)
        sum == FoldLeft(LAMBDA a, i : VAdd(a, lag(i)), VConst(BZero, n0), RG(2, n))
    IN  Force([k \in 1..n0 |->
            LET s == BSub(FxOne, FxMul(r[k], r[k]))
            IN  IF BLe(s, FxEps(40)) THEN BZero ELSE FxDiv(sum[k], s)])
\* displacement within a triangle, L a triple of coordinate vectors
Shift2(n, lob, al, L) ==
    LET n0 == Len(L[1])
        w(i1, i2, i3) == LET b == VxScale(VxMul(L[i2], L[i3]), 2, 1)      \* 4 / 2
                             a1 == VxTimes(al, L[i1])
                         IN  VxMul(VxMul(b, Warp(n, lob, VSub(L[i2], L[i3]))), VAdd(VConst(FxOne, n0), VxMul(a1, a1)))
        w1 == w(1, 2, 3)
        w2 == w(2, 1, 3)
        w3 == w(3, 1, 2)
    IN  <<VAdd(w2, w3), VSub(w1, w3), VSub(VSub(VConst(BZero, n0), w1), w2)>>
\* barycentric coordinates of the tuples of order n: d + 1 vectors, the first is L_0
Bary(d, n, tt) ==
    LET n0 == Len(tt)
        L == [l \in 1..d |-> Force([i \in 1..n0 |-> FxQ(tt[i][l], n)])]
    IN  Force(<<FoldLeft(LAMBDA a, l : VSub(a, L[l]), VConst(FxOne, n0), [l \in 1..d |-> l])>> \o L)
WarpBlend(d, n, tt, lob) ==
    LET L == Bary(d, n, tt)
        n0 == Len(tt)
        al == Alpha(d, n)
        unit(M) == Force([l \in 1..d |-> VSub(VxScale(M[l + 1], 2, 1), VConst(FxOne, n0))])
        others(i) == SelectSeq(<<1, 2, 3, 4>>, LAMBDA j : j # i)
        zero == VConst(BZero, n0)
        face(i) ==    \* contribution of the face opposite to vertex i: displacement of the other three
            LET o == others(i)
                s == Shift2(n, lob, al, <<L[o[1]], L[o[2]], L[o[3]]>>)
                half == VxScale(L[i], 1, 2)
                a1 == VxTimes(al, L[i])
                bl == Force([k \in 1..n0 |->
                        IF L[i][k] = BZero THEN FxOne
                        ELSE IF \E m \in 1..3 : L[o[m]][k] = BZero THEN BZero
                        ELSE LET f(m) == FxDiv(L[o[m]][k], BAdd(L[o[m]][k], half[k]))
                             IN  FxMul(BAdd(FxOne, FxMul(a1[k], a1[k])), FxMul(f(1), FxMul(f(2), f(3))))])
                \* a node on several faces is displaced once
                once == Force([k \in 1..n0 |-> IF \E j \in 1..(i - 1) : L[j][k] = BZero THEN BZero ELSE bl[k]])
            IN  [j \in 1..4 |-> IF j = i THEN zero ELSE VxMul(once, s[CHOOSE m \in 1..3 : o[m] = j])]
    IN  IF d = 2 THEN LET s == Shift2(n, lob, al, L) IN unit([l \in 1..3 |-> VAdd(L[l], s[l])])
        ELSE LET F == Force([i \in 1..4 |-> face(i)])
             IN  unit([l \in 1..4 |-> FoldLeft(LAMBDA a, i : VAdd(a, F[i][l]), L[l], <<1, 2, 3, 4>>)])
=============================================================================
