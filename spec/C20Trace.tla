------------------------------ MODULE C20Trace ------------------------------
(* Recorded maps, conversions, monomials, Lebesgue constants and plots.      *)
EXTENDS Maps, Judge
Fix(e) == e.job.den
Mat(e) == Force([i \in 1..Len(e.job.A) |-> Force([k \in 1..Len(e.job.A[1]) |-> FxQ(e.job.A[i][k], Fix(e))])])
Vec(u, den) == Force([k \in 1..Len(u) |-> FxQ(u[k], den)])
Pts(e) == Force([l \in 1..Len(e.job.x) |-> Vec(e.job.x[l], Fix(e))])
NPts(e) == IF e.job.x = <<>> THEN 6 ELSE Len(e.job.x[1])
Near2(R, S, tol) == Len(R) = Len(S) /\ \A i \in 1..Len(R) : VxNear(R[i], S[i], tol)
Mag2(S) == FoldLeft(LAMBDA a, r : BMax(a, VMax(r)), FxOne, S)
Rel(R, S, k) == Near2(R, S, FxMul(FxEps(k), Mag2(S)))
AffV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE LET A == Mat(e)
             b == Vec(e.job.b, Fix(e))
             X == Pts(e)
             n == NPts(e)
             r == AffInv(A, b)
             \* rounding: relative to the sizes of A, its inverse and their products with b
             cond == FxMul(BMax(FxOne, MNorm(A)), BMax(FxOne, MNorm(r.a)))
             sz == BMax(BMax(VMax(b), Mag2(X)), FxOne)
             det == FxDet(A)
             t0 == FxMul(FxEps(48), FxMul(BMax(FxOne, MNorm(A)), sz))
             t1 == FxMul(FxEps(46), FxMul(cond, FxMul(BMax(FxOne, MNorm(r.a)), sz)))
             t2 == FxMul(t1, cond)
             Y == AffApply(A, b, X, n)
         IN  Failing(<< <<"coefficients", Near2(MRows(e.a), A, BZero) /\ VxNear(VHex(e.b), b, BZero)>>,
                <<"application to a batch", Near2(MRows(e.y), Y, t0)>>,
                <<"application to single points", Near2(MRows(e.y1), Y, t0)>>,
                <<"determinant", FxNear(BHex(e.det), det, FxMul(FxEps(44), BMax(BAbs(det), FxPow(MNorm(A), Len(A)))))>>,
                <<"inverse matrix", Near2(MRows(e.ia), r.a, t1)>>,
                <<"inverse translation", VxNear(VHex(e.ib), r.b, t1)>>,
                <<"inverse application", Near2(MRows(e.iy), AffApply(r.a, r.b, X, n), t1)>>,
                <<"inverse after map", Near2(MRows(e.back), X, t2)>>,
                <<"map after inverse", Near2(MRows(e.forth), X, t2)>>,
                <<"inverse of the inverse", Near2(MRows(e.iia), A, t2) /\ VxNear(VHex(e.iib), b, t2)>>,
                <<"determinant of the inverse", FxNear(FxMul(BHex(e.idet), det), FxOne, FxMul(FxEps(44), FxMul(cond, FxPow(cond, 1))))>>,
                <<"repeatable", e.again>>,
                <<"arguments", e.args>> >>)
SingV(e) == Failing(<< <<"application", e.cls = "ok" /\ Near2(MRows(e.y), AffApply(Mat(e), Vec(e.job.b, Fix(e)), Pts(e), NPts(e)), FxMul(FxEps(44), FxInt(1000)))>>,
                       <<"determinant", e.cls = "ok" /\ e.detzero>>,
                       <<"no inverse", e.cls = "ok" /\ \E k \in DOMAIN e.iexc : e.iexc[k] = "LinAlgError">> >>)
ConvV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE LET d == e.job.d
             X == Pts(e)
             n == NPts(e)
             B == UnitToBary(X, n)
             E(R, S) == Near2(MRows(R), S, FxMul(FxEps(46), FxMul(FxInt(2 * d), Mag2(S))))
         IN  Failing(<< <<"unit to barycentric", E(e.bary, B)>>,
                <<"barycentric to unit", E(e.unit, X)>>,
                <<"round trip", E(e.rt, X)>>,
                <<"vertices to vertices", e.job.s = "vertices" => E(e.bary, Force([k \in 1..(d + 1) |-> Force([i \in 1..(d + 1) |-> IF i = k THEN FxOne ELSE BZero])]))>>,
                <<"barycentric to equilateral", d <= 3 => E(e.equi, FromBary(d, EquiVert, B, n))>>,
                <<"equilateral to unit", d <= 3 => E(e.eunit, EquiToUnit(X, n))>>,
                <<"equilateral round trip", d <= 3 => E(e.ert, X)>>,
                <<"equilateral vertices", d <= 3 => E(e.everts, Force([k \in 1..(d + 1) |-> Force([l \in 1..d |-> EquiVert(d, k, l)])]))>>,
                <<"equilateral vertices to unit vertices", d <= 3 => E(e.euverts, Force([l \in 1..d |-> Force([k \in 1..(d + 1) |-> UnitVert(d, k, l)])]))>>,
                <<"equilateral map", d <= 3 => E(e.emap, EquiToUnit(X, n))>>,
                <<"arguments", e.args>> >>)
MonoV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE LET m0 == [c |-> <<e.job.A[1][1], e.job.den>>, e |-> e.job.e]
             m == FoldLeft(LAMBDA a, i : MoDiff(a, i), m0, e.job.w)
             X == Pts(e)
             V == MoVal(m, X, NPts(e))
             R(a, b) == FxNear(a, b, BAdd(FxMul(FxEps(46), BAbs(b)), FxEps(150)))
             v == VHex(e.v)
         IN  Failing(<< <<"values", Len(v) = Len(V) /\ \A k \in 1..Len(V) : FxNear(v[k], V[k], BAdd(FxMul(FxEps(44), BAbs(V[k])), FxEps(140)))>>,
                <<"shape", e.shape>>,
                <<"factor", R(BHex(e.c), FxQ(m.c[1], m.c[2]))>>,
                <<"exponents", m.c[1] # 0 => e.e = m.e>>,
                <<"simplex integral", R(BHex(e.simplex), MoSimplex(m))>>,
                <<"hypercube integral", R(BHex(e.cube), MoCube(m))>>,
                <<"receiver unchanged", e.same>> >>)
LebV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE LET fs == e.job.el.fs
             S == Sample(fs)
             n0 == Len(TPIdx(SampleFs(fs)))
             L == Lebesgue(fs, MRows(e.x), S, n0)
         IN  Failing(<< <<"maximum of the Lebesgue function", FxNear(BHex(e.v), L, FxMul(FxEps(30), L))>>,
                        <<"at least one", BLe(BSub(FxOne, FxEps(40)), BHex(e.v))>>,
                        <<"arguments", e.args>> >>)
LebErrV(e) == IF e.cls = "exc" /\ \E k \in DOMAIN e.exc : e.exc[k] = "ValueError" THEN <<>> ELSE <<"rejected">>
\* a drawing of the nodal values: the polynomial's values, over triangles covering the element
Cover(T, X, k, n) ==
    LET area2(t) == LET q(a, c) == BSub(X[c][t[a] + 1], X[c][t[1] + 1])
                    IN  BAbs(BSub(FxMul(q(2, 1), q(3, 2)), FxMul(q(2, 2), q(3, 1))))
    IN  /\ Len(T) = k * k
        /\ \A i \in 1..Len(T) : \A a \in 1..3 : T[i][a] \in 0..(n - 1)
        /\ \A i \in 1..Len(T) : BLt(FxEps(30), area2(T[i]))
        /\ FxNear(FxSum(Force([i \in 1..Len(T) |-> area2(T[i])])), FxInt(4), FxEps(36))
PlotV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE LET X == MRows(e.x)
             n == Len(X[1])
             k == IF e.job.w[1] = 0 THEN e.job.n ELSE e.job.w[1]
             p == VAdd(VxPow(X[1], e.job.n), IF Len(X) = 2 THEN VxScale(X[2], 1, 2) ELSE VConst(BZero, n))
         IN  Failing(<< <<"number of points", n = SpaceDim(<< <<e.job.d, k>> >>)>>,
                <<"drawn values", VxNear(VHex(e.v), p, FxEps(36))>>,
                <<"triangles", e.job.d = 2 => Cover(e.tri, X, k, n)>> >>)
MapVerdict(e) == CASE e.job.fam = "affine" -> AffV(e) [] e.job.fam = "singular" -> SingV(e) [] e.job.fam = "conv" -> ConvV(e)
                   [] e.job.fam = "mono" -> MonoV(e) [] e.job.fam = "lebesgue" -> LebV(e) [] e.job.fam = "leberr" -> LebErrV(e)
                   [] OTHER -> PlotV(e)
=============================================================================
