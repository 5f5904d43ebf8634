------------------------------- MODULE Linop -------------------------------
(***************************************************************************)
(* Recorded matrices as linear operators on vectors of nodal values.  A    *)
(* matrix is a sequence of rows; a family of vectors is a sequence of      *)
(* columns.                                                                *)
(***************************************************************************)
EXTENDS Elem

MRows(m) == Force([i \in DOMAIN m |-> VHex(m[i])])
IsMat(A, nr, nc) == Len(A) = nr /\ \A i \in DOMAIN A : Len(A[i]) = nc
Column(A, j) == Force([i \in 1..Len(A) |-> A[i][j]])
\* the transpose of a family of n columns of length m
Transp(C, m) == Force([i \in 1..m |-> [j \in 1..Len(C) |-> C[j][i]]])
MV(A, u) == Force([i \in 1..Len(A) |-> FxDot(A[i], u)])
AbsV(u) == Force([i \in 1..Len(u) |-> BAbs(u[i])])
AbsSum(u) == FxSum(AbsV(u))
VMax(u) == IF Len(u) = 0 THEN BZero ELSE VMaxAbs(u)
\* largest absolute row sum
MNorm(A) == FoldLeft(LAMBDA a, r : BMax(a, AbsSum(r)), FxOne, A)
\* A maps the vectors U[j] to W[j], up to rounding relative to |A| |u|
Maps(A, U, W, tol) ==
    LET nrm == MNorm(A)
    IN  \A j \in 1..Len(U) :
            LET t == FxMul(tol, FxMul(nrm, BMax(FxOne, VMax(U[j]))))
            IN  VxNear(MV(A, U[j]), W[j], t)
\* u^T A v
Form(u, A, v) == FxDot(u, MV(A, v))
MClose(A, B, tol) ==
    /\ Len(A) = Len(B)
    /\ \A i \in 1..Len(A) : /\ Len(A[i]) = Len(B[i])
                            /\ VxNear(A[i], B[i], FxMul(tol, BMax(FxOne, VMax(B[i]))))
\* the tolerance of solves: rounding errors are amplified by the condition
\* number, for which the recorded |V| |V^-1| is the bound
=============================================================================
