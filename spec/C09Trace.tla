------------------------------ MODULE C09Trace ------------------------------
(* Every gradient component is the partial derivative of the basis function   *)
(* along its axis.                                                            *)
EXTENDS Elem, Judge
X(e) == Force([k \in DOMAIN e.X |-> VHex(e.X[k])])
MaxOrd(e) == FoldLeft(LAMBDA a, f : Max2(a, f[2]), 0, e.job.el.fs)
\* next to singular points, see C08Trace
Tol(e) == IF e.job.var = "f32" THEN FxEps(9)
          ELSE IF e.job.var # "near" THEN FxEps(35)
          ELSE IF \E k \in DOMAIN e.job.el.fs : e.job.el.fs[k][1] = 3
          THEN FxEps(IF MaxOrd(e) <= 3 THEN 26 ELSE IF MaxOrd(e) <= 6 THEN 22 ELSE 17)
          ELSE FxEps(33)
FacKind(e, k) == IF Composed(e.job.el) THEN (IF e.job.el.ks[k] = "onb" THEN "onb" ELSE "mono")
                 ELSE IF e.job.kind # "any" THEN e.job.kind
                 ELSE IF e.job.el.fs[k][1] <= 3 THEN "onb" ELSE "mono"
\* values (l = 0) or derivatives along axis l of all products
Prod(e, l) ==
    LET fs == e.job.el.fs
        X0 == X(e)
        idx == TPIdx(fs)
        own(k) == l > 0 /\ TPOwner(fs, l) = k
        V == Force([k \in 1..Len(fs) |->
                IF own(k) THEN Ders(FacKind(e, k), <<fs[k]>>, TPSub(fs, k, X0), l - TPStart(fs, k), e.n)
                ELSE Vals(FacKind(e, k), <<fs[k]>>, TPSub(fs, k, X0), e.n)])
        \* position of the index of factor k: the first factor runs fastest
        size(k) == SpaceDim(<<fs[k]>>)
        stride(k) == SpaceDim(SubSeq(fs, 1, k - 1))
    IN  Force([i \in 1..Len(idx) |->
            FoldLeft(LAMBDA acc, k : VxMul(acc, V[k][(((i - 1) \div stride(k)) % size(k)) + 1]),
                     VConst(FxOne, e.n), [k \in 1..Len(fs) |-> k])])
AxisOK(e, l) == LET D == Prod(e, l)
                IN  \A i \in 1..Len(D) : VxClose(VHex(e.ders[l][i]), D[i], Tol(e))
GradVerdict(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE IF e.count # SpaceDim(e.job.el.fs) THEN <<"count">>
    ELSE IF ~e.shapes THEN <<"array shape">>
    ELSE IF ~e.finite THEN <<"finite">>
    ELSE Failing([l \in 1..TPDim(e.job.el.fs) |-> <<"derivative along axis " \o ToString(l), AxisOK(e, l)>>])
=============================================================================
