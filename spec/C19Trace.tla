------------------------------ MODULE C19Trace ------------------------------
(* Recorded combinations, orthogonalised bases, node guesses, weights,        *)
(* residuals, Jacobians, increments and iterations.                           *)
EXTENDS Construct, Judge
T(k) == FxEps(k)
(* ---- linear combinations ---- *)
CQ(c) == <<FxQ(c.re, 4), FxQ(c.im, 4)>>
RECURSIVE CVal(_, _, _)
CVal(t, F, n) == IF IsNode(t) THEN FoldLeft(LAMBDA a, i : CAdd(a, CScal(CQ(t.c[i]), CVal(t.t[i], F, n))), CZero(n), RG(1, Len(t.c)))
                 ELSE F[t.leaf]
RECURSIVE Flat(_)
\* a term of which the library promises the flattened form: the list of functions
Flat(t) == IF ~IsNode(t) THEN [ok |-> FALSE, f |-> <<>>]
           ELSE IF \A i \in DOMAIN t.t : ~IsNode(t.t[i]) THEN [ok |-> TRUE, f |-> [i \in DOMAIN t.t |-> t.t[i].leaf]]
           ELSE LET S == [i \in DOMAIN t.t |-> Flat(t.t[i])]
                IN  IF \E i \in DOMAIN S : ~S[i].ok THEN [ok |-> FALSE, f |-> <<>>]
                    ELSE LET m == Merge([i \in DOMAIN S |-> [t |-> S[i].f]]) IN [ok |-> m.ok, f |-> m.f]
LinV(e) ==
    LET F == Force([i \in DOMAIN e.F |-> CVec(e.F[i])])
        v == CVec(e.v)
        n == Len(v[1])
        w == CVal(e.job.tree, F, n)
        fl == Flat(e.job.tree)
    IN  Failing(<< <<"shape", e.shape>>,
                   <<"value", VxNear(v[1], w[1], T(38)) /\ VxNear(v[2], w[2], T(38))>>,
                   <<"flattened", fl.ok => e.functions = fl.f>> >>)
(* ---- orthogonalisation ---- *)
Delta(i, j) == IF i = j THEN FxOne ELSE BZero
OrthV(e) ==
    LET n == Len(e.q)
        w == VHex(e.w)
        q == Force([i \in 1..n |-> CVec(e.q[i])])
        b == Force([i \in 1..n |-> CVec(e.b[i])])
        qy == Force([i \in 1..n |-> CVec(e.qy[i])])
        by == Force([i \in 1..n |-> CVec(e.by[i])])
        tol == IF e.job.kind = "mono" THEN T(22) ELSE T(36)
        big == FoldLeft(LAMBDA a, x : BMax(a, CMax(x)), FxOne, b)
        co == Force([i \in 1..n |-> Force([j \in 1..n |-> Inner(w, b[i], q[j])])])
        proj(i, Q) == FoldLeft(LAMBDA a, j : CAdd(a, CScal(co[i][j], Q[j])), CZero(Len(Q[1][1])), RG(1, n))
        same(x, y) == LET d == CSub(x, y) IN BLe(CMax(d), FxMul(tol, big))
    IN  IF n # SpaceDim(e.job.el.fs) THEN <<"number of functions">>
        ELSE Failing(<< <<"orthonormal", \A i, j \in 1..n : LET g == Inner(w, q[i], q[j])
                                              IN  FxNear(g[1], Delta(i, j), tol) /\ FxNear(g[2], BZero, tol)>>,
               <<"same span", \A i \in 1..n : same(proj(i, q), b[i])>>,
               <<"same span elsewhere", \A i \in 1..n : same(proj(i, qy), by[i])>> >>)
(* ---- eigenvalues of multiplication ---- *)
MatMulC(A, B, n) == Force([i \in 1..n |-> Force([j \in 1..n |->
                      FoldLeft(LAMBDA a, k : LET z == CMul(A[i][k], B[k][j]) IN <<BAdd(a[1], z[1]), BAdd(a[2], z[2])>>, <<BZero, BZero>>, RG(1, n))])])
TraceC(A, n) == FoldLeft(LAMBDA a, i : <<BAdd(a[1], A[i][i][1]), BAdd(a[2], A[i][i][2])>>, <<BZero, BZero>>, RG(1, n))
CPow(z, k) == FoldLeft(LAMBDA a, i : CMul(a, z), <<FxOne, BZero>>, RG(1, k))
InDomain(el, re, im) ==
    LET lo == BSub(FxInt(-1), T(28))
    IN  IF el.fs[1][1] = 1 /\ Len(el.fs) = 1 THEN BLe(BAbs(re), BAdd(FxOne, T(28))) /\ FxNear(im, BZero, T(24))
        ELSE IF Len(el.fs) = 2 THEN BLe(BAbs(re), BAdd(FxOne, T(28))) /\ BLe(BAbs(im), BAdd(FxOne, T(28)))
        ELSE BLe(lo, re) /\ BLe(lo, im) /\ BLe(BAdd(re, im), T(28))
VRV(e) ==
    LET el == e.job.el
        n == SpaceDim(el.fs)
        w == VHex(e.w)
        X == Force([k \in DOMAIN e.X |-> VHex(e.X[k])])
        V == Vals("onb", el.fs, X, Len(w))
        z == CVec(e.z)
        y == IF Len(X) = 1 THEN VConst(BZero, Len(w)) ELSE X[2]
        M == Force([i \in 1..n |-> Force([j \in 1..n |-> LET vw == VxMul(w, VxMul(V[i], V[j])) IN <<FxDot(vw, X[1]), FxDot(vw, y)>>])])
        kmax == Min2(n, IF n > 10 THEN 3 ELSE 6)
        P == FoldLeft(LAMBDA acc, k : Append(acc, MatMulC(acc[k - 1], M, n)), <<M>>, RG(2, kmax))
        psum(k) == FoldLeft(LAMBDA a, i : LET p == CPow(<<z[1][i], z[2][i]>>, k) IN <<BAdd(a[1], p[1]), BAdd(a[2], p[2])>>, <<BZero, BZero>>, RG(1, n))
        leg == IF Len(X) = 1 THEN Jacobi1(0, 0, 1, n, z[1])[n + 1] ELSE <<>>
    IN  IF Len(z[1]) # n THEN <<"number of nodes">>
        ELSE Failing(<< <<"eigenvalues", \A k \in 1..kmax : LET a == psum(k)
                                                                b == TraceC(P[k], n)
                                                            IN  FxNear(a[1], b[1], T(34)) /\ FxNear(a[2], b[2], T(34))>>,
               <<"in the domain", \A i \in 1..n : InDomain(el, z[1][i], z[2][i])>>,
               <<"Gauss nodes", \A i \in DOMAIN leg : FxNear(leg[i], BZero, T(34))>> >>)
(* ---- weights ---- *)
Refs(e) == Force([k \in 1..Len(e.job.coefs[1]) |-> FxQ(e.job.coefs[1][k], 8)])
\* badly scaled integrands: every equation, as accurately as the largest of them allows
Exps(e) == IF Len(e.job.coefs) > 1 THEN e.job.coefs[2] ELSE [k \in 1..Len(e.job.coefs[1]) |-> 0]
HasScl(e) == Len(e.job.coefs) > 1
Shl2(x, k) == IF k >= 0 THEN BShl(x, k) ELSE FxMul(x, FxEps(-k))
ScaleRows(V, e) == IF HasScl(e) THEN Force([k \in 1..Len(V) |-> Force([i \in 1..Len(V[k]) |-> Shl2(V[k][i], Exps(e)[k])])]) ELSE V
Equations(V, w, R, ex) ==
    LET top == FoldLeft(LAMBDA a, k : IF k > a THEN k ELSE a, -100, ex)
        big == FoldLeft(LAMBDA a, v : BMax(a, VMax(v)), FxOne, V)
        rb == FoldLeft(LAMBDA a, v : BMax(a, BAbs(v)), FxOne, R)
    IN  \A k \in 1..Len(V) : FxNear(FxDot(V[k], w), R[k], BShl(FxMul(T(46), BAdd(rb, FxMul(AbsSum(w), big))), top - ex[k]))
WV(e) ==
    LET fs == e.job.el.fs
        X == Force([k \in DOMAIN e.X |-> VHex(e.X[k])])
        m == Len(X[1])
        w == VHex(e.w)
        V == Vals(e.job.kind, fs, X, m)
    IN  IF Len(w) # m THEN <<"number of weights">>
        ELSE Failing(<< <<"weights", MinNormLS(V, w, Refs(e), IF HasScl(e) THEN T(14) ELSE T(30))>>,
                        <<"equations", HasScl(e) => Equations(V, w, Refs(e), Exps(e))>>,
                        <<"warning", e.warned = (Len(V) < m)>> >>)
(* ---- residual and Jacobian ---- *)
ResV(e) ==
    LET fs == e.job.el.fs
        X == Force([k \in DOMAIN e.X |-> VHex(e.X[k])])
        d == Len(X)
        m == Len(X[1])
        w == VHex(e.w)
        V == ScaleRows(Vals(e.job.kind, fs, X, m), e)
        n == Len(V)
        R == IF HasScl(e) THEN Force([k \in 1..n |-> Shl2(Refs(e)[k], Exps(e)[k])]) ELSE Refs(e)
        r == VHex(e.r)
        Jw == MRows(e.Jw)
        Jx == MRows(e.Jx)
        D == Force([l \in 1..d |-> ScaleRows(Ders(e.job.kind, fs, X, l, m), e)])
        close(a, b) == IF HasScl(e) THEN VxNear(a, b, FxMul(T(36), BAdd(VMax(b), T(50)))) ELSE VxClose(a, b, T(36))
    IN  IF Len(r) # n \/ ~IsMat(Jw, n, m) \/ ~IsMat(Jx, n, d * m) THEN <<"shapes">>
        ELSE Failing(<< <<"residual", \A k \in 1..n : FxNear(r[k], BSub(FxDot(V[k], w), R[k]), FxMul(T(40), BAdd(IF HasScl(e) THEN BAdd(BAbs(R[k]), Shl2(FxEps(20), Exps(e)[k])) ELSE FxOne, FxMul(AbsSum(w), VMax(V[k])))))>>,
               <<"weights' derivative", \A k \in 1..n : close(Jw[k], V[k])>>,
               <<"nodes' derivative", \A k \in 1..n, l \in 1..d :
                     close(SubSeq(Jx[k], ((l - 1) * m) + 1, l * m), VxMul(D[l][k], w))>> >>)
GNV(e) ==
    LET Jw == MRows(e.Jw)
        Jx == MRows(e.Jx)
        J == Force([k \in 1..Len(Jw) |-> Jw[k] \o Jx[k]])
        dw == VHex(e.dw)
        dx == FlattenSeq([l \in DOMAIN e.dx |-> VHex(e.dx[l])])
        r == VHex(e.r)
    IN  IF Len(dw) # Len(Jw[1]) \/ Len(dw) + Len(dx) # Len(J[1]) \/ e.shape # <<Len(e.X), Len(dw)>> THEN <<"shapes">>
        ELSE IF HasScl(e) THEN
             LET un(M) == Force([k \in 1..Len(M) |-> Force([i \in 1..Len(M[k]) |-> Shl2(M[k][i], -Exps(e)[k])])])
                 U == un(J)
                 b == Force([i \in 1..Len(r) |-> Shl2(BNeg(r[i]), -Exps(e)[i])])
             IN  Failing(<< <<"increment", MinNormLS(U, dw \o dx, b, T(14))>>, <<"equations", Equations(U, dw \o dx, b, Exps(e))>> >>)
        ELSE Failing(<< <<"increment", MinNormLS(J, dw \o dx, Force([i \in 1..Len(r) |-> BNeg(r[i])]), T(28))>> >>)
(* ---- iteration ---- *)
ItV(e) ==
    LET fs == e.job.el.fs
        X == Force([k \in DOMAIN e.X |-> VHex(e.X[k])])
        w == VHex(e.w)
        V == Vals("onb", fs, X, Len(w))
    IN  Failing(<< <<"converges to an exact rule", \A k \in 1..Len(V) :
                        FxNear(FxDot(V[k], w), IF k = 1 THEN FxMul(V[1][1], TPVol(fs)) ELSE BZero, T(36))>> >>)
ErrV(e) == IF e.cls = "exc" /\ \E k \in DOMAIN e.exc : e.exc[k] \in
                 (CASE e.job.s = "coefs" -> {"AssertionError", "ValueError"} [] e.job.s = "dependent" -> {"LinAlgError"} [] OTHER -> {"ValueError"})
           THEN <<>> ELSE <<"rejected">>
ConVerdict(e) ==
    CASE e.job.fam = "err" -> ErrV(e)
      [] e.cls # "ok" -> <<"available">>
      [] e.job.fam = "lin" -> LinV(e)
      [] e.job.fam = "orth" -> OrthV(e)
      [] e.job.fam = "vr" -> VRV(e)
      [] e.job.fam = "wts" -> WV(e)
      [] e.job.fam = "res" -> ResV(e)
      [] e.job.fam = "gn" -> GNV(e)
      [] OTHER -> ItV(e)
=============================================================================
