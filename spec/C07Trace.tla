------------------------------ MODULE C07Trace ------------------------------
(* Recorded node sets are those of their family.                              *)
EXTENDS Nodes, Judge
fsOf(e) == e.job.el.fs
X(e) == Force([k \in DOMAIN e.X |-> VHex(e.X[k])])
Tol == FxEps(36)
\* the Lobatto nodes of order N, from the recorded ones
LobOf(e, N) == Polish(LobattoStep, N, VHex(e.lob[N + 1]))
FacTuples(e, k) == IdxList(fsOf(e)[k][1], fsOf(e)[k][2])
FacNodes(e, k) ==     \* nodes of factor k in the order of its tuples
    LET d == fsOf(e)[k][1]
        N == fsOf(e)[k][2]
        tt == FacTuples(e, k)
        n0 == Len(tt)
        equi == Force([l \in 1..d |-> Force([i \in 1..n0 |-> FxQ((2 * tt[i][l]) - N, N)])])
    IN  IF d = 0 THEN <<>>
        ELSE IF e.kind = "lgt" THEN <<Polish(GaussStep, N, VHex(e.lob[N + 1]))>>
        ELSE IF N = 0 THEN [l \in 1..d |-> <<FxQ(1 - d, d + 1)>>]
        ELSE IF e.kind \in {"equi", "equidist"} \/ d > 3 THEN equi
        ELSE IF d = 1 THEN <<LobOf(e, N)>>
        ELSE WarpBlend(d, N, tt, LobOf(e, N))
Expected(e) ==
    LET fs == fsOf(e)
        F == Force([k \in 1..Len(fs) |-> FacNodes(e, k)])
        cnt == [k \in 1..Len(fs) |-> Len(FacTuples(e, k))]
        n == FoldLeft(LAMBDA a, v : a * v, 1, cnt)
        at(i, k) == (((i - 1) \div FoldLeft(LAMBDA a, v : a * v, 1, SubSeq(cnt, 1, k - 1))) % cnt[k]) + 1
    IN  FlattenSeq([k \in 1..Len(fs) |-> [l \in 1..fs[k][1] |-> Force([i \in 1..n |-> F[k][l][at(i, k)]])]])
\* e.perm: position of node i of the listing in the standard listing
Listed(e, u) == Force([i \in 1..Len(u) |-> u[e.perm[i] + 1]])
LobOK(e) ==
    e.kind \in {"equi", "equidist"} \/
    \A k \in DOMAIN fsOf(e) : LET N == fsOf(e)[k][2]
                              IN  IF e.kind = "lgt" THEN IsGauss(N, VHex(e.lob[N + 1]), FxEps(44))
                                  ELSE (N >= 1 /\ fsOf(e)[k][1] \in 1..3) => IsLobatto(N, VHex(e.lob[N + 1]), FxEps(40))
Positions(e) == LET Y == Expected(e) IN Len(Y) = Len(e.X) /\ \A l \in 1..Len(Y) : VxNear(X(e)[l], Listed(e, Y[l]), Tol)
InsideX(e, lo) ==
    LET fs == fsOf(e)
        low == BSub(BNeg(FxOne), lo)
        ok(Y) == /\ \A l \in 1..Len(Y) : \A i \in 1..Len(Y[l]) : BLe(low, Y[l][i])
                 /\ Len(Y) > 0 => LET s == FoldLeft(LAMBDA a, l : VAdd(a, Y[l]), VConst(BZero, Len(Y[1])), [l \in 1..Len(Y) |-> l])
                                  IN  \A i \in 1..Len(s) : BLe(s[i], BAdd(FxInt(2 - Len(Y)), lo))
    IN  \A k \in DOMAIN fs : ok(TPSub(fs, k, X(e)))
\* permuting barycentric coordinates permutes the nodes (single factors, N >= 1)
Symmetric(e) ==
    LET d == fsOf(e)[1][1]
        N == fsOf(e)[1][2]
        tt == IdxList(d, N)
        pos == [t \in {tt[i] : i \in 1..Len(tt)} |-> CHOOSE i \in 1..Len(tt) : tt[i] = t]
        x == X(e)
        n0 == Len(tt)
        first(t) == [t EXCEPT ![1] = N - IdxSum(t)]
        swap(t, l) == [t EXCEPT ![l] = t[l + 1], ![l + 1] = t[l]]
        img0 == FoldLeft(LAMBDA a, l : VSub(a, VAdd(x[l], VConst(FxOne, n0))), VConst(FxOne, n0), [l \in 1..d |-> l])
        at(u, g(_)) == Force([i \in 1..n0 |-> u[pos[g(tt[i])]]])
    IN  /\ VxNear(at(x[1], first), img0, Tol)
        /\ \A l \in 2..d : VxNear(at(x[l], first), x[l], Tol)
        /\ \A m \in 1..(d - 1) : \A l \in 1..d :
              VxNear(at(x[l], LAMBDA t : swap(t, m)), x[IF l = m THEN m + 1 ELSE IF l = m + 1 THEN m ELSE l], Tol)
\* an approximate inverse of the exact Vandermonde matrix proves that it is regular
Unisolvent(e) ==
    LET n == SpaceDim(fsOf(e))
        V == Vals("onb", fsOf(e), X(e), n)          \* V[j]: function j at the nodes
        W == Force([i \in 1..n |-> VHex(e.W[i])])   \* W[i]: row i of the inverse (functions x nodes)
        quarter == FxQ(1, 4)
    IN  \A i \in 1..n : \A j \in 1..n :
            BLe(BAbs(BSub(FxDot(W[i], V[j]), IF i = j THEN FxOne ELSE BZero)), quarter)
NodesV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE IF ~(e.shapeok /\ e.finite) THEN <<"count and shape">>
    ELSE IF ~LobOK(e) THEN <<"one-dimensional nodes">>
    ELSE Failing(<< <<"inside", InsideX(e, FxEps(44))>>, <<"positions", Positions(e)>>,
                    <<"symmetric", (Len(fsOf(e)) = 1 /\ fsOf(e)[1][1] >= 1 /\ fsOf(e)[1][2] >= 1 /\ e.job.listing = 0 /\ SpaceDim(fsOf(e)) <= 400)
                                   => Symmetric(e)>>,
                    <<"unisolvent", e.uni => Unisolvent(e)>> >>)
RandomV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE IF ~(e.shapeok /\ e.finite) THEN <<"count and shape">>
    ELSE Failing(<< <<"inside", InsideX(e, BZero)>>,
                    <<"only source of randomness", e.repro /\ e.pure>>,
                    <<"independent nodes", e.distinct>>,
                    <<"drawn", e.drawn>> >>)
\* the product of node sets: set k varies with the stride of the sizes before it; the coordinates are kept exactly (units of 1/8)
SetVal(e, k, l, i) == LET kk == IF e.kind = "tpi" THEN 1 ELSE k
                      IN  8 * (((7 * kk + 3 * l + 5 * i) % 17) - 8)
                          + (IF e.job.sets[k][3] \in {"f4", "f8"} THEN (kk + 2 * l + 3 * i) % 8 ELSE 0)
ProductV(e) ==
    LET S == e.job.sets
        n == FoldLeft(LAMBDA a, s : a * s[2], 1, S)
        at(i, k) == (((i - 1) \div FoldLeft(LAMBDA a, s : a * s[2], 1, SubSeq(S, 1, k - 1))) % S[k][2]) + 1
    IN  IF e.cls # "ok" THEN <<"available">>
        ELSE Failing(<< <<"product of the node sets",
                          e.X = FlattenSeq([k \in 1..Len(S) |-> [l \in 1..S[k][1] |-> [i \in 1..n |-> SetVal(e, k, l, at(i, k))]]])>>,
                        <<"count and shape", e.shape = <<FoldLeft(LAMBDA a, s : a + s[1], 0, S), n>> >>,
                        <<"arguments unchanged", e.pure>> >>)
NodeVerdict(e) == IF e.kind \in {"tpn", "tpi"} THEN ProductV(e) ELSE IF e.kind \in {"random", "stream"} THEN RandomV(e) ELSE NodesV(e)
=============================================================================
