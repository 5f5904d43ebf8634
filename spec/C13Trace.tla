------------------------------ MODULE C13Trace ------------------------------
(* Recorded matrices are the documented sums and integrals.                   *)
EXTENDS Linop, Geom, Judge
PtsH(h) == Force([k \in DOMAIN h |-> VHex(h[k])])
\* functions named by a job: basis functions, monomials, derivatives along the first/last axis
Fun(kind, fs, X, n) ==
    CASE kind \in {"onb", "mono"} -> Vals(kind, fs, X, n)
      [] kind = "d1" -> Ders("onb", fs, X, 1, n)
      [] kind = "dd" -> Ders("onb", fs, X, TPDim(fs), n)
Id(i, j) == IF i = j THEN FxOne ELSE BZero
Tol == FxEps(30)
\* U[i]^T A V[j] = S(i, j)
Represents(A, U, V, S(_, _), tol) ==
    LET nrm == MNorm(A)
        um == FoldLeft(LAMBDA a, u : BMax(a, AbsSum(u)), FxOne, U)
        vm == FoldLeft(LAMBDA a, u : BMax(a, VMax(u)), FxOne, V)
        t == FxMul(tol, FxMul(BMax(FxOne, VMax(AbsV(Force([i \in DOMAIN A |-> VMax(A[i])])))), FxMul(um, vm)))
        AV == Force([j \in 1..Len(V) |-> MV(A, V[j])])
    IN  \A i \in 1..Len(U) : \A j \in 1..Len(V) : FxNear(FxDot(U[i], AV[j]), S(i, j), t)
MassV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE IF ~e.finite THEN <<"finite">>
    ELSE LET fs == e.job.el.fs
             n == SpaceDim(fs)
             X == PtsH(e.X)
             V == Vals("onb", fs, X, n)
             M == MRows(e.M)
             W == MRows(e.W)
         IN  IF ~(IsMat(M, n, n) /\ IsMat(W, n, n)) THEN <<"matrix size">> ELSE Failing(<<
              <<"represents the inner product", Represents(M, V, V, Id, Tol)>>,
              <<"deprecated mass matrix agrees", MClose(MRows(e.MD), M, FxEps(36))>>,
              <<"deprecated inverse agrees", MClose(MRows(e.WD), W, FxEps(36))>>,
              <<"inverse", LET I == Force([j \in 1..n |-> Force([i \in 1..n |-> Id(i, j)])])
                           IN  Represents(M, I, Force([j \in 1..n |-> Column(W, j)]), Id, Tol)>>,
              <<"inverse is sum of products", \A i \in 1..n : \A k \in 1..n :
                    FxClose(W[i][k], FoldLeft(LAMBDA a, j : BAdd(a, FxMul(V[j][i], V[j][k])), BZero, RG(1, n)), FxEps(34))>> >>)
fs2(e) == LET k == e.job.inc IN [i \in DOMAIN e.job.el.fs |-> <<e.job.el.fs[i][1], e.job.el.fs[i][2] + k>>]
Half(u) == Force([i \in DOMAIN u |-> BSub(BShr(u[i], 1), FxQ(1, 10))])
MapX(e, X) == CASE e.job.fam \in {"bilmap", "testmap"} -> Force([l \in DOMAIN X |-> Half(X[l])])
                [] e.job.var = "rot" -> Force([l \in DOMAIN X |-> LET u == X[Len(X) + 1 - l] IN Force([i \in DOMAIN u |-> BSub(BShr(u[i], 2), FxQ(3, 4))])])
                [] e.job.var = "const" -> Force([l \in DOMAIN X |-> VConst(FxQ(-3, 4), Len(X[l]))])
                [] OTHER -> X
\* the functions in which nodal values are interpolated
Interp(e) == IF e.job.var = "mono" THEN "mono" ELSE "onb"
Mapped(e) == e.job.fam \in {"bilmap", "testmap"} \/ e.job.var \in {"rot", "const"}
\* sums over the rule
Sums(F, G, w) == Force([i \in 1..Len(F) |-> LET fw == VxMul(F[i], w) IN Force([j \in 1..Len(G) |-> FxDot(fw, G[j])])])
BilV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE IF ~e.finite THEN <<"finite">>
    ELSE LET fs == e.job.el.fs
             gs == fs2(e)
             nq == e.nq
             Xq == PtsH(e.Xq)
             w == VHex(e.wq)
             F == Fun(e.job.test, fs, MapX(e, Xq), nq)
             G == Fun(e.job.trial, gs, Xq, nq)
             S == Sums(F, G, w)
             A == MRows(e.A)
             no == SpaceDim(fs)
             ni == SpaceDim(gs)
             U == Vals(Interp(e), fs, PtsH(e.Xo), no)
             V == Vals(Interp(e), gs, PtsH(e.Xi), ni)
         IN  IF ~IsMat(A, no, ni) THEN <<"matrix size">> ELSE Failing(<<
              <<"represents the weighted sums", Represents(A, U, V, LAMBDA i, j : S[i][j], Tol)>>,
              <<"is the mass matrix", (e.job.fam = "bil" /\ ~Mapped(e) /\ e.job.var # "user" /\ e.job.test = "onb" /\ e.job.trial = "onb" /\ e.job.inc = 0)
                                      => Represents(A, U, V, Id, Tol)>>,
              <<"output nodes default to the input nodes", e.job.oset = e.job.iset => MClose(MRows(e.A0), A, FxEps(36))>> >>)
TestV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE IF ~e.finite THEN <<"finite">>
    ELSE LET fs == e.job.el.fs
             nq == e.nq
             Xq == PtsH(e.Xq)
             w == VHex(e.wq)
             n == SpaceDim(fs)
             F == Fun(e.job.test, fs, MapX(e, Xq), nq)
             A == MRows(e.A)
             U == Vals(Interp(e), fs, PtsH(e.Xo), n)
             I == Force([j \in 1..nq |-> Force([i \in 1..nq |-> Id(i, j)])])
             fw(i) == VxMul(F[i], w)
             FW == Force([i \in 1..n |-> fw(i)])
             modal(B) == IsMat(B, n, nq) /\ \A i \in 1..n : VxClose(B[i], FW[i], FxEps(36))
         IN  IF ~IsMat(A, n, nq) THEN <<"matrix size">> ELSE Failing(<<
              <<"represents the weighted sums", Represents(A, U, I, LAMBDA i, j : FW[i][j], Tol)>>,
              <<"deprecated modal matrix", ~Mapped(e) => modal(MRows(e.modal))>>,
              <<"deprecated nodal matrix", (~Mapped(e) /\ e.job.test = Interp(e)) => MClose(MRows(e.dep), A, FxEps(32))>>,
              <<"nodes default to those of the rule", e.self =>
                    LET w0 == VHex(e.w0)
                        F0 == Fun(e.job.test, fs, PtsH(e.X0), n)
                        I0 == Force([j \in 1..n |-> Force([i \in 1..n |-> Id(i, j)])])
                        S(i, j) == FxMul(F0[i][j], w0[j])
                    IN  Represents(MRows(e.A0), F0, I0, S, Tol) /\ Represents(MRows(e.dep0), F0, I0, S, Tol)>> >>)
\* faces
FaceAxis(fs, m) == IF Len(fs) = 1 THEN m + 1 ELSE 2 ^ (m - 1) + 1
FacePts(e, S) ==      \* points of the face's reference element mapped to the volume
    LET fs == e.job.el.fs
        ds == [k \in DOMAIN fs |-> fs[k][1]]
        d == ShapeDim(ds)
        V == Verts(ds)
        v(k) == V[e.vidx[k] + 1]
        nq == e.nq
    IN  Force([l \in 1..d |->
          FoldLeft(LAMBDA acc, m :
                     VAdd(acc, VScale(VAdd(S[m], VConst(FxOne, nq)), BInt(v(FaceAxis(fs, m))[l] - v(1)[l]), BInt(2))),
                   VConst(FxInt(v(1)[l]), nq), [m \in 1..(d - 1) |-> m])])
FaceFs(fs, k) == IF Len(fs) = 1 THEN << <<fs[1][1] - 1, fs[1][2] + k>> >> ELSE [i \in 1..(Len(fs) - 1) |-> <<1, fs[1][2] + k>>]
FaceV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE IF ~e.finite THEN <<"finite">>
    ELSE LET fs == e.job.el.fs
             ff == FaceFs(fs, e.job.inc)
             nq == e.nq
             S0 == PtsH(e.Xq)
             w == VHex(e.wq)
             F == Fun(e.job.test, fs, FacePts(e, S0), nq)
             G == Vals("onb", ff, S0, nq)
             S == Sums(F, G, w)
             n == SpaceDim(fs)
             m == SpaceDim(ff)
             U == Fun(IF e.job.test = "onb" THEN "onb" ELSE "onb", fs, PtsH(e.Xo), n)
             V == Vals("onb", ff, PtsH(e.Xi), m)
             I == Force([j \in 1..nq |-> Force([i \in 1..nq |-> Id(i, j)])])
             FW == Force([i \in 1..n |-> VxMul(F[i], w)])
             A == MRows(e.A)
             modal(B) == IsMat(B, n, m) /\ \A i \in 1..n : VxClose(B[i], S[i], FxEps(34))
             onb == e.job.test = "onb"
         IN  IF ~IsMat(A, n, m) THEN <<"matrix size">> ELSE Failing(<<
              <<"represents the face integrals", Represents(A, U, V, LAMBDA i, j : S[i][j], Tol)>>,
              <<"deprecated modal face matrix", modal(MRows(e.modal))>>,
              <<"deprecated modal quadrature face matrix",
                    LET B == MRows(e.mq) IN IsMat(B, n, nq) /\ \A i \in 1..n : VxClose(B[i], FW[i], FxEps(34))>>,
              <<"deprecated nodal face matrix", onb => MClose(MRows(e.nodal), A, FxEps(30))>>,
              <<"deprecated nodal quadrature face matrix", onb => Represents(MRows(e.nq_), U, I, LAMBDA i, j : FW[i][j], Tol)>>,
              <<"test matrix", Represents(MRows(e.test), U, I, LAMBDA i, j : FW[i][j], Tol)>> >>)
SpecV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE IF ~e.finite THEN <<"finite">>
    ELSE LET fs == e.job.el.fs
             n == SpaceDim(fs)
             V == Vals("onb", fs, PtsH(e.X), n)
             D == VHex(e.diag)
         IN  IF Len(D) # n THEN <<"size">> ELSE Failing(<<
              <<"exact for the nodal values", \A i \in 1..n : \A j \in 1..n :
                    FxNear(FxDot(VxMul(V[i], D), V[j]), Id(i, j), FxEps(34))>> >>)
ErrWant(s) == CASE s \in {"massmono", "imassmono", "masstp"} -> "NotImplementedError"
                [] OTHER -> "ValueError"
ErrV(e) == Failing(<< <<ErrWant(e.job.test), ErrWant(e.job.test) \in {e.exc[k] : k \in DOMAIN e.exc}>> >>)
FormVerdict(e) == CASE e.job.fam = "mass" -> MassV(e)
                    [] e.job.fam \in {"bil", "bilmap"} -> BilV(e)
                    [] e.job.fam \in {"test", "testmap"} -> TestV(e)
                    [] e.job.fam = "face" -> FaceV(e)
                    [] e.job.fam = "spec" -> SpecV(e)
                    [] OTHER -> ErrV(e)
=============================================================================
