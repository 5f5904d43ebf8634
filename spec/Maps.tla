-------------------------------- MODULE Maps --------------------------------
(***************************************************************************)
(* Affine maps as an algebra (application, composition, inverse,           *)
(* determinant), the coordinate systems of the simplex and the maps        *)
(* between them, monomials with their derivatives and integrals, Lagrange  *)
(* functions and their absolute sum.                                       *)
(***************************************************************************)
EXTENDS Construct
\* an affine map: rows a, translation b (fixed point); points as coordinate vectors
AffApply(a, b, X, n) == Force([i \in 1..Len(a) |->
    FoldLeft(LAMBDA s, k : VAdd(s, VxTimes(a[i][k], X[k])), VConst(b[i], n), RG(1, Len(X)))])
AffInv(a, b) ==
    LET d == Len(a)
        cols == Force([k \in 1..d |-> Solve(Force([i \in 1..d |-> a[i] \o <<IF i = k THEN FxOne ELSE BZero>>]))])
        ai == Transp2(cols)
    IN  [a |-> ai, b |-> Force([i \in 1..d |-> BNeg(FxDot(ai[i], b))])]
FxDet(M0) ==
    LET n == Len(M0)
        step(st, k) ==
            LET A == st.A
                p == Pivot(A, k)
                B == Force([i \in 1..n |-> IF i = k THEN A[p] ELSE IF i = p THEN A[k] ELSE A[i]])
            IN  IF st.z \/ A[p][k] = BZero THEN [st EXCEPT !.z = TRUE]
                ELSE [z |-> FALSE, d |-> FxMul(IF p = k THEN st.d ELSE BNeg(st.d), B[k][k]),
                      A |-> Force([i \in 1..n |-> IF i <= k THEN B[i]
                               ELSE LET f == FxDiv(B[i][k], B[k][k]) IN VSub(B[i], VxTimes(f, B[k]))])]
        r == FoldLeft(step, [z |-> FALSE, d |-> FxOne, A |-> M0], RG(1, n))
    IN  IF r.z THEN BZero ELSE r.d

(* ---- the simplex with vertices v_0..v_d ------------------------------------ *)
\* coordinate l of vertex k (from 1): unit (biunit) and equilateral simplices
UnitVert(d, k, l) == IF k = l + 1 THEN FxOne ELSE BNeg(FxOne)
\* equilateral: side 2, centroid 0; vertex k + 1 is the first one that leaves the plane x_k = const.
\* (apex: height h_k = sqrt(2(k+1)/k); the base lies h_k/(k+1) below the centroid)
Height(k) == FxSqrt(FxQ(2 * (k + 1), k))
EquiVert(d, k, l) == IF k <= l THEN BNeg(FxScale(Height(l), 1, l + 1))
                     ELSE IF k = l + 1 THEN FxScale(Height(l), l, l + 1) ELSE BZero
FromBary(d, V(_, _, _), B, n) == Force([l \in 1..d |->
    FoldLeft(LAMBDA s, k : VAdd(s, VxTimes(V(d, k, l), B[k])), VConst(BZero, n), RG(1, d + 1))])
UnitToBary(X, n) ==
    LET t == Force([l \in 1..Len(X) |-> VxScale(VAdd(X[l], VConst(FxOne, n)), 1, 2)])
    IN  << FoldLeft(LAMBDA s, u : VSub(s, u), VConst(FxOne, n), t) >> \o t
\* barycentric coordinates of equilateral coordinates: solve the vertex equations
EquiToBary(X, n) ==
    LET d == Len(X)
        rowsA == Force([i \in 1..(d + 1) |-> Force([k \in 1..(d + 1) |-> IF i = d + 1 THEN FxOne ELSE EquiVert(d, k, i)])])
        inv == AffInv(rowsA, VConst(BZero, d + 1)).a
    IN  AffApply(inv, VConst(BZero, d + 1), X \o <<VConst(FxOne, n)>>, n)
EquiToUnit(X, n) == FromBary(Len(X), UnitVert, EquiToBary(X, n), n)

(* ---- monomials: [c: <<num, den>>, e: exponents] in coordinates on [0, 1] ----- *)
ESum(e) == FoldLeft(LAMBDA a, x : a + x, 0, e)
MoDiff(m, i) == IF m.e[i] = 0 THEN [m EXCEPT !.c = <<0, 1>>]
                ELSE [c |-> <<m.c[1] * m.e[i], m.c[2]>>, e |-> [m.e EXCEPT ![i] = @ - 1]]
MoVal(m, X, n) == FoldLeft(LAMBDA s, i : VxMul(s, VxPow(VxScale(VAdd(X[i], VConst(FxOne, n)), 1, 2), m.e[i])),
                           VConst(FxQ(m.c[1], m.c[2]), n), RG(1, Len(X)))
\* over the biunit simplex (2^d times the unit one), over the unit hypercube
MoSimplex(m) == LET d == Len(m.e)
                IN  FxBQ(BMul(BInt(m.c[1]), BShl(BProd([i \in 1..d |-> BFact(m.e[i])]), d)), BMul(BInt(m.c[2]), BFact(d + ESum(m.e))))
MoCube(m) == FxBQ(BInt(m.c[1]), BMul(BInt(m.c[2]), BProd([i \in 1..Len(m.e) |-> BInt(m.e[i] + 1)])))

(* ---- Lagrange functions ------------------------------------------------------ *)
\* the largest absolute sum at the points Y (n0 of them) of the Lagrange functions of the
\* nodes X for the space fs, in the monomial basis
Lebesgue(fs, X, Y, n0) ==
    LET I == TPIdx(fs)
        m == Len(I)
        cols == Force([k \in 1..m |-> MonoVal(X, I[k], m)])      \* functions at the nodes
        Vt == cols                                                  \* V transposed: row k is function k at the nodes
        inv == Force([k \in 1..m |-> Solve(Force([i \in 1..m |-> Vt[i] \o <<IF i = k THEN FxOne ELSE BZero>>]))])
        \* inv[k][i]: coefficient of function k in Lagrange function i
        at == Force([k \in 1..m |-> MonoVal(Y, I[k], n0)])
        lag(i) == FoldLeft(LAMBDA s, k : VAdd(s, VxTimes(inv[k][i], at[k])), VConst(BZero, n0), RG(1, m))
    IN  VMax(FoldLeft(LAMBDA s, i : VAdd(s, AbsV(lag(i))), VConst(BZero, n0), RG(1, m)))
\* the sample: equispaced points of a space of higher order
SampleOrder(d, n) == (IF d = 2 THEN 30 ELSE 10) * (IF n = 0 THEN 1 ELSE n)
SampleFs(fs) == LET N == SampleOrder(TPDim(fs), IF fs = <<>> THEN 0 ELSE fs[1][2]) IN Force([k \in 1..Len(fs) |-> <<fs[k][1], N>>])
Sample(fs) ==
    LET F == SampleFs(fs)
        T == TPIdx(F)
        N == IF F = <<>> THEN 1 ELSE F[1][2]
    IN  [l \in 1..TPDim(fs) |-> Force([i \in 1..Len(T) |-> FxQ((2 * T[i][l]) - N, N)])]
=============================================================================
