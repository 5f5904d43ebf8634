------------------------------ MODULE C08Trace ------------------------------
(* Every basis function is the function its mode identifier names.           *)
EXTENDS Elem, Judge
X(e) == Force([k \in DOMAIN e.X |-> VHex(e.X[k])])
\* the basis promised by basis_for_space
Kind(e) == IF Composed(e.job.el) THEN "mixed"
           ELSE IF e.job.kind # "any" THEN e.job.kind
           ELSE IF \A k \in DOMAIN e.job.el.fs : e.job.el.fs[k][1] <= 3 THEN "onb" ELSE "mixed"
\* factors beyond 3 dimensions have monomials; the user's own functions are monomials
FacKind(e, k) == IF Composed(e.job.el) THEN (IF e.job.el.ks[k] = "onb" THEN "onb" ELSE "mono")
                 ELSE IF e.job.el.fs[k][1] <= 3 THEN "onb" ELSE "mono"
Mixed(e, fs, X0, n0) ==
    LET idx == TPIdx(fs)
        V == Force([k \in 1..Len(fs) |-> Vals(FacKind(e, k),
                                              <<fs[k]>>, TPSub(fs, k, X0), n0)])
        L == Force([k \in 1..Len(fs) |-> TPIdx(<<fs[k]>>)])
        pos(k, x) == CHOOSE j \in 1..Len(L[k]) : L[k][j] = x
    IN  Force([i \in 1..Len(idx) |->
            FoldLeft(LAMBDA acc, k : VxMul(acc, V[k][pos(k, TPSub(fs, k, idx[i]))]),
                     VConst(FxOne, n0), [k \in 1..Len(fs) |-> k])])
\* next to the singular vertices and edges the library treats points within 1e-12
\* (1e-10 for tetrahedra) as if they were on them
Tol(e) == IF e.job.var = "f32" THEN FxEps(10)
          ELSE IF e.job.var # "near" THEN FxEps(36)
          ELSE IF \E k \in DOMAIN e.job.el.fs : e.job.el.fs[k][1] = 3
          THEN FxEps(LET n == FoldLeft(LAMBDA a, f : Max2(a, f[2]), 0, e.job.el.fs)
                     IN  IF n <= 3 THEN 28 ELSE IF n <= 6 THEN 25 ELSE 21)
          ELSE FxEps(35)
ValuesOK(e) ==
    LET fs == e.job.el.fs
        V == IF Kind(e) = "mixed" THEN Mixed(e, fs, X(e), e.n) ELSE Vals(Kind(e), fs, X(e), e.n)
    IN  \A i \in 1..Len(V) : VxClose(VHex(e.vals[i]), V[i], Tol(e))
IdsOK(e) ==
    LET L == TPIdx(e.job.el.fs)
    IN  Len(e.ids) = Len(L) /\ \A i \in 1..Len(L) : e.ids[i] = IdStr(e.job.el, L[i])
BasisVerdict(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE Failing(<<
        <<"ids", IdsOK(e)>>,
        <<"weight", e.oweight = (CASE Kind(e) = "onb" -> "1" [] Kind(e) = "mono" -> "BasisNotOrthonormal"
                                   [] OTHER -> IF \A k \in DOMAIN e.job.el.fs : FacKind(e, k) = "onb" THEN "1" ELSE "BasisNotOrthonormal")>> >>)
       \o (IF Len(e.vals) # SpaceDim(e.job.el.fs) THEN <<"count">>
           ELSE IF ~e.shapes THEN <<"array shape">>
           ELSE IF ~e.finite THEN <<"finite">>
           ELSE Failing(<< <<"values", ValuesOK(e)>> >>))
=============================================================================
