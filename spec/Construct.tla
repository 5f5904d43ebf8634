------------------------------ MODULE Construct ------------------------------
(***************************************************************************)
(* Construction of quadrature rules: linear combinations of functions (as   *)
(* terms, and the flattening of nested terms), complex inner products,      *)
(* linear systems.                                                          *)
(***************************************************************************)
EXTENDS Linop
(* ---- terms: a leaf function, or coefficients over terms -------------------- *)
Leaf(i) == [leaf |-> i, c |-> <<>>, t |-> <<>>]
Node(c, t) == [leaf |-> 0, c |-> c, t |-> t]
IsNode(t) == t.leaf = 0
IsPrefix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* the lists can be merged: each is a prefix of the longest one so far or extends it
Merge(ts) == FoldLeft(LAMBDA b, t : IF b.ok /\ IsPrefix2(b.f, t.t) THEN [ok |-> TRUE, f |-> t.t]
                                    ELSE IF b.ok /\ IsPrefix2(t.t, b.f) THEN b ELSE [ok |-> FALSE, f |-> <<>>],
                      [ok |-> TRUE, f |-> <<>>], ts)
\* combining with integer coefficients: associativity if all terms are nodes over one list
Combine(c, ts) ==
    IF ts = <<>> \/ \E i \in DOMAIN ts : ~IsNode(ts[i]) THEN Node(c, ts)
    ELSE LET m == Merge(ts)
         IN  IF ~m.ok THEN Node(c, ts)
             ELSE Node([k \in 1..Len(m.f) |->
                     FoldLeft(LAMBDA a, i : a + (IF k <= Len(ts[i].c) THEN c[i] * ts[i].c[k] ELSE 0), 0, RG(1, Len(ts)))], m.f)
RECURSIVE IntVal(_, _)
IntVal(t, x) == IF IsNode(t) THEN FoldLeft(LAMBDA a, i : a + (t.c[i] * IntVal(t.t[i], x)), 0, RG(1, Len(t.c)))
                ELSE x[t.leaf]

(* ---- complex vectors <<re, im>> --------------------------------------------- *)
CVec(e) == <<VHex(e[1]), VHex(e[2])>>
CAdd(a, b) == <<VAdd(a[1], b[1]), VAdd(a[2], b[2])>>
CSub(a, b) == <<VSub(a[1], b[1]), VSub(a[2], b[2])>>
CScal(z, a) == <<VSub(VxTimes(z[1], a[1]), VxTimes(z[2], a[2])), VAdd(VxTimes(z[1], a[2]), VxTimes(z[2], a[1]))>>
CZero(n) == <<VConst(BZero, n), VConst(BZero, n)>>
\* sum of w a conj(b)
Inner(w, a, b) ==
    LET aw == <<VxMul(w, a[1]), VxMul(w, a[2])>>
    IN  <<BAdd(FxDot(aw[1], b[1]), FxDot(aw[2], b[2])), BSub(FxDot(aw[2], b[1]), FxDot(aw[1], b[2]))>>
CMax(a) == BMax(VMax(a[1]), VMax(a[2]))
CMul(z, u) == <<BSub(FxMul(z[1], u[1]), FxMul(z[2], u[2])), BAdd(FxMul(z[1], u[2]), FxMul(z[2], u[1]))>>

(* ---- linear systems: Gaussian elimination with partial pivoting ----------------- *)
Pivot(A, k) == FoldLeft(LAMBDA b, i : IF BLt(BAbs(A[b][k]), BAbs(A[i][k])) THEN i ELSE b, k, RG(k, Len(A)))
\* A: rows augmented by the right-hand side
Solve(A0) ==
    LET n == Len(A0)
        Elim(A, k) ==
            LET p == Pivot(A, k)
                B == Force([i \in 1..n |-> IF i = k THEN A[p] ELSE IF i = p THEN A[k] ELSE A[i]])
            IN  Force([i \in 1..n |-> IF i <= k THEN B[i]
                    ELSE LET f == FxDiv(B[i][k], B[k][k]) IN VSub(B[i], VxTimes(f, B[k]))])
        U == FoldLeft(Elim, A0, RG(1, n - 1))
        back(x, i) == \* x: solution components i+1..n
            LET s == FoldLeft(LAMBDA a, j : BAdd(a, FxMul(U[i][j], x[j - i])), BZero, RG(i + 1, n))
            IN  <<FxDiv(BSub(U[i][n + 1], s), U[i][i])>> \o x
    IN  FoldLeft(LAMBDA x, k : Force(back(x, n + 1 - k)), <<>>, RG(1, n))
Transp2(A) == IF Len(A) = 0 THEN <<>> ELSE Force([j \in 1..Len(A[1]) |-> Force([i \in 1..Len(A) |-> A[i][j]])])
TMV(A, u) == MV(Transp2(A), u)
\* x is the least-squares solution of smallest norm of A x = b (A of full rank)
MinNormLS(A, x, b, tol) ==
    LET m == Len(A)
        n == Len(A[1])
        r == VSub(MV(A, x), b)
        At == Transp2(A)
        nrm == BAdd(FxOne, BMax(VMax(x), VMax(b)))
        t == FxMul(tol, FxMul(nrm, MNorm(A)))
    IN  IF m >= n THEN VxNear(MV(At, r), VConst(BZero, n), FxMul(t, MNorm(At)))
        ELSE /\ VxNear(r, VConst(BZero, m), t)
             \* x = A^T z
             /\ LET z == Solve(Force([i \in 1..m |-> Append(Force([k \in 1..m |-> FxDot(A[i], A[k])]), FxDot(A[i], x))]))
                IN  VxNear(MV(At, z), x, FxMul(tol, FxMul(nrm, MNorm(At))))
=============================================================================
