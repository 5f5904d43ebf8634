-------------------------------- MODULE C13MC --------------------------------
(***************************************************************************)
(* Inner products over the element and its mapped faces, with exact        *)
(* polynomials: the divergence theorem ties the face integrals (defined    *)
(* by the faces' vertex lists) to the volume integrals.                    *)
(***************************************************************************)
EXTENDS BasisPlan, Geom

VARIABLES ge, gp, gl, gv
GShapes == << <<1>>, <<2>>, <<3>>, <<1, 1>>, <<1, 1, 1>>, <<2, 1>>, <<1, 2>> >>
GDeg(ds) == IF Quick THEN 3 ELSE IF ShapeDim(ds) = 3 THEN 4 ELSE 6
\* substitute x_l := c_l + sum_m a_lm t_m   (t in `d` unknowns)
Lin(c, a, d) == FoldLeft(LAMBDA acc, m : PlAdd(acc, PlScale(PlVar(m, d), QInt(a[m]))), PlConst(QInt(c), d), [m \in 1..d |-> m])
Subst(e, L, d) == FoldLeft(LAMBDA acc, l : FoldLeft(LAMBDA b, k : PlMul(b, L[l]), acc, [k \in 1..e[l] |-> k]),
                           PlConst(QOne, d), [l \in 1..Len(e) |-> l])
\* integral of a polynomial in t over a product of unit simplices
ProdIntegral(ds, p) == QSum(DOMAIN p, LAMBDA t :
    QMul(p[t], FoldLeft(LAMBDA a, k : LET st == ShapeDim(SubSeq(ds, 1, k - 1))
                                          m == UnitMoment(SubSeq(t, st + 1, st + ds[k]))
                                      IN  QMul(a, QMk(m[1], m[2])), QOne, [k \in 1..Len(ds) |-> k])))
Volume(ds, e) ==     \* of x^e over the biunit element
    LET d == ShapeDim(ds)
    IN  QMul(QInt(2 ^ d), ProdIntegral(ds, Subst(e, [l \in 1..d |-> Lin(-1, [m \in 1..d |-> IF m = l THEN 2 ELSE 0], d)], d)))
FaceList(F) == SetToSortSeq(F, LAMBDA a, b : a < b)
\* factors of a facet with nv vertices of an element ds
FaceDs(ds, F) == LET d == ShapeDim(ds) - 1 IN IF Cardinality(F) = d + 1 THEN <<d>> ELSE [k \in 1..d |-> 1]
FaceAxes(fds, m) == IF Len(fds) = 1 THEN m + 1 ELSE 2 ^ (m - 1) + 1
Cof(A, d, l) ==      \* component l of the generalised cross product of the d - 1 rows of A
    (IF l % 2 = 1 THEN 1 ELSE -1) * IDet([r \in 1..(d - 1) |-> SubSeq(A[r], 1, l - 1) \o SubSeq(A[r], l + 1, d)])
FaceTerm(ds, F, e, l) ==
    LET d == ShapeDim(ds)
        V == Verts(ds)
        q == FaceList(F)
        fds == FaceDs(ds, F)
        v0 == V[q[1] + 1]
        A == Force([m \in 1..(d - 1) |-> ISub(V[q[FaceAxes(fds, m)] + 1], v0)])
        n == Force([k \in 1..d |-> Cof(A, d, k)])
        cen == [k \in 1..d |-> FoldLeft(LAMBDA a, v : a + v[k], 0, V)]
        out == [k \in 1..d |-> (v0[k] * NVerts(ds)) - cen[k]]
        s == IF IDot(n, out) > 0 THEN 1 ELSE -1
        L == [k \in 1..d |-> Lin(v0[k], [m \in 1..(d - 1) |-> A[m][k]], d - 1)]
    IN  QMul(QInt(s * n[l]), ProdIntegral(IF d = 1 THEN <<>> ELSE fds, Subst(e, L, d - 1)))
Surface(ds, e, l) == QSum(Facets(ds), LAMBDA F : FaceTerm(ds, F, e, l))
Divergence(ds, e, l) ==
    Surface(ds, e, l) = IF e[l] = 0 THEN QZero ELSE QMul(QInt(e[l]), Volume(ds, [e EXCEPT ![l] = @ - 1]))
GInit == /\ ge \in 1..Len(GShapes)
         /\ gp \in LET L == IdxList(ShapeDim(GShapes[ge]), GDeg(GShapes[ge])) IN {L[i] : i \in 1..Len(L)}
         /\ gl \in 1..ShapeDim(GShapes[ge]) /\ gv = "todo"
GNext == gv = "todo" /\ gv' = (IF Divergence(GShapes[ge], gp, gl) THEN "ok" ELSE "bad") /\ UNCHANGED <<ge, gp, gl>>
GIdle == ge = 0 /\ gp = <<>> /\ gl = 0 /\ gv = ""
NInit == \/ BInit /\ GIdle
         \/ GInit /\ OrthoIdle /\ me = 0 /\ mv = "ok"
NNext == \/ BNext /\ UNCHANGED <<ge, gp, gl, gv>>
         \/ GNext /\ UNCHANGED <<vars, me, mv>>
NInv == BInv /\ gv # "bad"

Big2(el) == SpaceDim(el.fs) <= (IF Quick THEN 45 ELSE 84)
Low(el, m) == \A k \in DOMAIN el.fs : el.fs[k][2] <= m
J(fam, el, test, trial, os, is, k, face) ==
    [fam |-> fam, el |-> el, test |-> test, trial |-> trial, oset |-> os, iset |-> is, inc |-> k, face |-> face, var |-> ""]
\* var: "rot" the test functions' nodes are the rule's with the axes reversed, "const" one and the same point,
\*      "user" a user's rule with integer nodes and weights, "mono" interpolation functions are the monomials,
\*      "list" sequences are lists
JX(j, var) == [j EXCEPT !.var = var]
MassEls == Filter(OnbEls, LAMBDA el : Big2(el) /\ Low(el, IF Quick THEN 12 ELSE 16))
Pos(el) == \A k \in DOMAIN el.fs : el.fs[k][1] > 0
QuadEls == Filter(MassEls, LAMBDA el : Pos(el) /\ Len(el.fs) > 0 /\ SpaceDim(el.fs) <= (IF Quick THEN 20 ELSE 40) /\ Low(el, 6))
Combos == << <<"onb", "onb", "A", "A", 0>>, <<"onb", "onb", "A", "B", 0>>, <<"d1", "onb", "A", "A", 0>>, <<"onb", "dd", "A", "B", 0>>,
             <<"onb", "onb", "B", "A", 1>>, <<"mono", "d1", "A", "A", 1>>, <<"dd", "mono", "B", "A", 0>> >>
XVars == << <<"rot", "d1", "onb", "F", "B", 0>>, <<"const", "onb", "mono", "A", "S", 0>>, <<"user", "onb", "d1", "B", "F", 0>>,
            <<"user", "mono", "onb", "S", "A", 1>>, <<"mono", "dd", "onb", "A", "B", 0>>, <<"mono", "onb", "onb", "F", "A", 1>>, <<"list", "onb", "dd", "A", "F", 0>>,
            <<"rot", "onb", "onb", "B", "A", 0>>, <<"const", "mono", "mono", "A", "B", 0>> >>
FaceEls == <<EP(2, 8), EP(3, 4), EQ(2, 6), EQ(3, 3), EP(1, 0), EP(1, 1), EP(1, 4), EP(2, 0), EP(2, 1), EP(2, 2), EP(2, 3), EP(2, 5), EP(3, 1), EP(3, 2), EP(3, 3), EQ(2, 1), EQ(2, 3), EQ(3, 1), EQ(3, 2)>>
NF(el) == LET ds == [k \in 1..Len(el.fs) |-> el.fs[k][1]] IN NFacets(ds)
ErrEls == << EP(2, 2), EQ(2, 1), EP(1, 3), EP(2, 7), EQ(2, 5) >>
Plan == Cat2(MassEls, <<"A", "B">>, LAMBDA el, s : J("mass", el, "onb", "onb", s, s, 0, -1))
     \o Cat2(QuadEls, Combos, LAMBDA el, c : J("bil", el, c[1], c[2], c[3], c[4], c[5], -1))
     \o Cat2(QuadEls, << <<"onb", "onb">>, <<"d1", "mono">> >>, LAMBDA el, c : J("bilmap", el, c[1], c[2], "A", "B", 0, -1))
     \o Cat2(QuadEls, << <<"onb", "A">>, <<"d1", "B">>, <<"mono", "A">> >>, LAMBDA el, c : J("test", el, c[1], "", c[2], "", 0, -1))
     \o Cat2(QuadEls, << <<"onb", "A">>, <<"dd", "A">> >>, LAMBDA el, c : J("testmap", el, c[1], "", c[2], "", 0, -1))
     \o Cat2(QuadEls, XVars, LAMBDA el, c : JX(J("bil", el, c[2], c[3], c[4], c[5], c[6], -1), c[1]))
     \o Cat2(QuadEls, << <<"rot", "d1", "B">>, <<"const", "onb", "A">>, <<"user", "mono", "A">>, <<"mono", "d1", "F">>, <<"list", "onb", "S">> >>,
             LAMBDA el, c : JX(J("test", el, c[2], "", c[3], "", 0, -1), c[1]))
     \o Cat2(Filter(QuadEls, LAMBDA el : Low(el, 1) /\ ~Low(el, 0) /\ \A k \in DOMAIN el.fs : el.fs[k][2] = 1), << "", "user", "rot" >>,
             LAMBDA el, c : JX(J("test", el, "onb", "", "I", "", 0, -1), c))
     \o Cat2(Filter(QuadEls, LAMBDA el : \A k \in DOMAIN el.fs : el.fs[k][2] = 1), << "user", "mono", "rot" >>,
             LAMBDA el, c : JX(J("bil", el, "onb", "mono", "I", "I", 0, -1), c))
     \o FlattenSeq([i \in 1..Len(FaceEls) |-> Cat2(RG(0, NF(FaceEls[i]) - 1), << <<"onb", "A", 0>>, <<"d1", "B", 0>>, <<"onb", "A", 2>> >>,
            LAMBDA f, c : J("face", FaceEls[i], c[1], "onb", c[2], "A", c[3], f))])
     \o Cat2(RG(1, 4), RG(0, IF Quick THEN 4 ELSE 6), LAMBDA d, n : J("spec", EQ(d, IF d >= 3 THEN Min2(n, 3) ELSE n), "onb", "onb", "G", "G", 0, -1))
     \o << J("spec", ET(<<Seg(2), Seg(4)>>), "onb", "onb", "G", "G", 0, -1), J("spec", ET(<<Seg(3), Seg(1), Seg(2)>>), "onb", "onb", "G", "G", 0, -1) >>
     \o Cat2(ErrEls, <<"massmono", "imassmono", "masstp", "test", "bilin", "bilout", "specnontp", "specnon1d", "nqm", "nqmf", "nmf">>,
             LAMBDA el, s : J("err", el, s, "", "", "", 0, -1))
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
