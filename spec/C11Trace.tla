------------------------------ MODULE C11Trace ------------------------------
(* jacobi is the orthonormal Jacobi polynomial, grad_jacobi its derivative,   *)
(* scaled_jacobi the standard Jacobi polynomial.                              *)
EXTENDS Elem, Judge
FxMin(a, b) == IF BLe(a, b) THEN a ELSE b
\* single precision: the recurrence loses digits with the degree
Tol(e, n) == IF e.job.var = "f32" THEN FxMin(FxEps(9), FxScale(FxEps(19), (n + 1) * (n + 1), 1)) ELSE FxEps(36)
MaxDegree(e) == FoldLeft(LAMBDA a, n : Max2(a, n), 0, e.job.degs)
ValuesOK(e) ==
    LET p == e.job.par
        x == VHex(e.X[1])
        M == JMass(p[1], p[2], p[3])
        norm(n) == LET r == JNormRatio(p[1], p[2], p[3], n)
                   IN  FxSqrt(FxMul(M, FxBQ(r[1], r[2])))
        P == IF e.job.f = "grad_jacobi"
             THEN LET D == Jacobi1D(p[1], p[2], p[3], MaxDegree(e), x)
                  IN  Force([n \in 1..Len(D) |-> D[n][2]])
             ELSE Jacobi1(p[1], p[2], p[3], MaxDegree(e), x)
    IN  \A k \in DOMAIN e.job.degs :
            LET n == e.job.degs[k]
            IN  VxClose(VHex(e.vals[k]),
                        IF e.job.f = "scaled_jacobi" THEN P[n + 1] ELSE VScale(P[n + 1], FxOne, norm(n)),
                        Tol(e, n))
JacobiVerdict(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE IF ~e.shapes THEN <<"array shape">>
    ELSE IF ~e.finite THEN <<"finite">>
    ELSE Failing(<< <<"values", ValuesOK(e)>> >>)
=============================================================================
