------------------------------ MODULE C12Trace ------------------------------
(* Recorded matrices act as the specified operators on all polynomials of the *)
(* space: on every basis function.                                            *)
EXTENDS Linop, Poly, Judge
PtsH(h) == Force([k \in DOMAIN h |-> VHex(h[k])])
fsOf(e) == e.job.el.fs
d0(e) == TPDim(fsOf(e))
n0(e) == SpaceDim(fsOf(e))
Tol == FxEps(34)
\* monomials are ill-conditioned
STol(e) == FxEps((IF e.job.kind = "mono" THEN 26 ELSE 32) - (IF e.job.scl = <<>> THEN 0 ELSE 14))
VanOK(M, cols, nn, tol) ==
    LET A == MRows(M)
    IN  IsMat(A, nn, Len(cols)) /\ \A j \in 1..Len(cols) : VxClose(Column(A, j), cols[j], tol)
MatV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE IF ~e.finite THEN <<"finite">>
    ELSE
    LET fs == fsOf(e)
        Xf == PtsH(e.Xf)
        Xt == PtsH(e.Xt)
        n == n0(e)
        nf == e.nf
        nt == e.nt
        Pf == Vals(e.job.kind, fs, Xf, nf)
        Pt == Vals(e.job.kind, fs, Xt, nt)
        dd == [l \in 1..d0(e) |-> l]
        Dt == Force([l \in dd |-> Ders(e.job.kind, fs, Xt, l, nt)])
        DT(l) == Ders(e.job.kind, fs, Xt, l, nt)
        R == MRows(e.R)
        F == MRows(Force([i \in 1..n |-> Pf[i]]))
        over == nf >= n
        \* least squares: R = Z Vold^T with the recorded witness Z
        Gram(i, j) == FxDot(Column(MRows(e.Vf), i), Column(MRows(e.Vf), j))
    IN  Failing(<<
            <<"vandermonde", VanOK(e.Vf, Pf, nf, Tol) /\ VanOK(e.Vt, Pt, nt, Tol)>>,
            <<"repeated functions", e.dup # <<>> => /\ VanOK(e.VD, [c \in DOMAIN e.dup |-> Pt[e.dup[c]]], nt, Tol)
                                                   /\ Len(e.GDup) = d0(e)
                                                   /\ \A l \in 1..d0(e) : LET D == DT(l) IN VanOK(e.GDup[l], [c \in DOMAIN e.dup |-> D[e.dup[c]]], nt, Tol)>>,
            <<"multi vandermonde", Len(e.G) = d0(e) /\ \A l \in 1..d0(e) : VanOK(e.G[l], DT(l), nt, Tol)>>,
            <<"vandermonde of derivatives", Len(e.GD) = d0(e) /\ \A l \in 1..d0(e) : VanOK(e.GD[l], DT(l), nt, Tol)>>,
            <<"resampling", IsMat(R, nt, nf) /\ (over => Maps(R, Pf, Pt, STol(e)))>>,
            \* more nodes than functions: the rest (orthogonal to the space) is mapped to 0
            <<"least squares", (IsMat(R, nt, nf) /\ nf > n) =>
                \A j \in DOMAIN e.Q : LET q == VHex(e.Q[j])
                                      IN  /\ \A i \in 1..n : BLe(BAbs(FxDot(q, Pf[i])), FxMul(FxEps(30), BMax(FxOne, VMax(Pf[i]))))
                                          /\ VxNear(MV(R, q), VConst(BZero, nt), FxMul(STol(e), MNorm(R)))>>,
            \* fewer: the interpolant with the smallest coefficients, R V V^T = Vnew V^T
            <<"smallest interpolant", (IsMat(R, nt, nf) /\ nf < n) =>
                LET vt(k, C) == Force([j \in 1..n |-> C[j][k]])
                    GF == Force([k \in 1..nf |-> Force([m \in 1..nf |-> FxDot(vt(k, Pf), vt(m, Pf))])])
                    TF == Force([k \in 1..nf |-> Force([m \in 1..nt |-> FxDot(vt(k, Pf), vt(m, Pt))])])
                IN  Maps(R, GF, TF, STol(e))>>,
            <<"differentiation", nf = n => (Len(e.D) = d0(e) /\ \A l \in 1..d0(e) :
                LET A == MRows(e.D[l]) IN IsMat(A, nt, n) /\ Maps(A, Pf, DT(l), STol(e)))>>,
            <<"differentiation of a basis", nf = n => (Len(e.DB) = d0(e) /\ \A l \in 1..d0(e) :
                LET A == MRows(e.DB[l]) IN IsMat(A, nt, n) /\ Maps(A, Pf, DT(l), STol(e)))>>,
            <<"differentiation at the nodes", nf = n => (Len(e.DS) = d0(e) /\ \A l \in 1..d0(e) :
                LET A == MRows(e.DS[l]) IN IsMat(A, n, n) /\ Maps(A, Pf, Ders(e.job.kind, fs, Xf, l, nf), STol(e)))>> >>)
\* permutations
Swapped(t, l) == [t EXCEPT ![1] = t[l], ![l] = t[1]]
PermV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE LET T == e.tuples
             pos(t) == IF \E i \in 1..Len(T) : T[i] = t THEN CHOOSE i \in 1..Len(T) : T[i] = t ELSE 0
             closed(l) == \A i \in 1..Len(T) : pos(Swapped(T[i], l)) # 0
             ok(l) == closed(l) => e.perms[l] = [i \in 1..Len(T) |-> pos(Swapped(T[i], l)) - 1]
             rel(l) == closed(l) /\ ok(l) =>
                LET A == MRows(e.D[1])
                    B == MRows(e.D[l])
                    p == e.perms[l]
                IN  MClose(B, [i \in 1..Len(T) |-> [j \in 1..Len(T) |-> A[p[i] + 1][p[j] + 1]]], FxEps(30))
         IN  Failing(<< <<"permutation", \A l \in 1..d0(e) : ok(l)>>,
                        <<"relates the axes", e.square => \A l \in 1..d0(e) : rel(l)>> >>)
ErrV(e) ==
    CASE e.job.to = "R" -> Failing(<< <<"RuntimeError", "RuntimeError" \in {e.exc[k] : k \in DOMAIN e.exc}>> >>)
      [] e.job.to \in {"D", "multi0"} -> Failing(<< <<"ValueError", "ValueError" \in {e.exc[k] : k \in DOMAIN e.exc}>> >>)
      [] e.job.to = "permbad" -> Failing(<< <<"rejected", e.cls = "exc">> >>)
      [] OTHER -> IF e.cls # "ok" THEN <<"available">> ELSE Failing(<< <<"values", e.good>> >>)
HistV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE LET L == TPIdx(fsOf(e))
             p0 == [t \in {L[i] : i \in 1..Len(L)} |-> LET i == CHOOSE i \in 1..Len(L) : L[i] = t
                                                       IN QFrac(e.job.coefs[i][1], e.job.coefs[i][2])]
             p == FoldLeft(LAMBDA a, op : IF op[1] = 0 THEN a ELSE PlDiff(a, op[1]), p0, e.hist)
             X == PtsH(e.X)
             n == e.n
             val == FoldSet(LAMBDA t, a : VAdd(a, VxTimes(QFx(p[t]), MonoVal(X, t, n))), VConst(BZero, n), DOMAIN p)
         IN  Failing(<< <<"values after the history", VxNear(VHex(e.u), val, FxMul(FxEps(30), FxInt(1024)))>> >>)
OpVerdict(e) == CASE e.job.fam = "mat" -> MatV(e)
                  [] e.job.fam = "perm" -> PermV(e)
                  [] e.job.fam = "err" -> ErrV(e)
                  [] OTHER -> HistV(e)
=============================================================================
