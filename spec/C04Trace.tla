------------------------------ MODULE C04Trace ------------------------------
(* Vertices, faces, face maps and normals of the recorded shapes.             *)
EXTENDS Geom, Fx, Judge
Tol == FxEps(46)
TolAlt == FxEps(36)   \* points up to 1000
Row(u, v) == VxNear(u, v, Tol)
IRow(V, l) == Force([i \in 1..Len(V) |-> FxInt(V[i][l])])
\* shape: counts and vertices
ShapeV(e) ==
    LET ds == e.job.ds
        V == Verts(ds)
    IN  IF e.cls # "ok" THEN <<"available">>
        ELSE Failing(<< <<"dim", e.dim = ShapeDim(ds)>>, <<"nvertices", e.nvertices = NVerts(ds)>>,
                <<"nfaces", ShapeDim(ds) = 0 \/ e.nfaces = NFacets(ds)>>,
                <<"vertex array", e.vshape = <<ShapeDim(ds), NVerts(ds)>> >>,
                <<"vertices", e.verts = V>> >>)
\* one face
Set(s) == {s[i] : i \in DOMAIN s}
Vt(ds, f, k) == Verts(ds)[f.idx[k] + 1]
\* reference vertex number (from 1) of the face that spans axis l
Axis(form, l) == IF form = "P" THEN l + 1 ELSE 2 ^ (l - 1) + 1
FaceForm(form, ds) == IF Len(ds) = 1 THEN "P" ELSE "Q"
FaceV(e, f) ==
    LET ds == e.job.ds
        form == FaceForm(e.job.form, ds)
        d == ShapeDim(ds)
        fds == IF form = "P" THEN <<d - 1>> ELSE [k \in 1..(d - 1) |-> 1]
        M == Force([k \in 1..d |-> VHex(f.mv[k])])
        Pt == Force([k \in 1..(d - 1) |-> VHex(f.p[k])])
        np == f.np
        mp == Force([k \in 1..d |-> VHex(f.mp[k])])
        half == BShr(FxOne, 1)
        \* the affine map given by the face's listed vertices
        affOf(Q, k, l) == FoldLeft(LAMBDA acc, m :
                     VAdd(acc, VScale(VAdd(Q[m], VConst(FxOne, k)),
                                      BInt(Vt(ds, f, Axis(form, m))[l] - Vt(ds, f, 1)[l]), BInt(2))),
                     VConst(FxInt(Vt(ds, f, 1)[l]), k), [m \in 1..(d - 1) |-> m])
        aff(l) == affOf(Pt, np, l)
        n == VHex(f.normal)
        raw == VHex(f.raw)
        dotI(u, w) == FoldLeft(LAMBDA a, l : BAdd(a, BMul(u[l], BInt(w[l]))), BZero, [l \in 1..d |-> l])
        cen == [l \in 1..d |-> FoldLeft(LAMBDA a, v : a + v[l], 0, Verts(ds))]
        out == [l \in 1..d |-> (Vt(ds, f, 1)[l] * NVerts(ds)) - cen[l]]
        nn == FxDot(n, n)
    IN  IF ~(\A k \in DOMAIN f.idx : f.idx[k] \in 0..(NVerts(ds) - 1)) \/ Len(f.idx) # NVerts(fds)
        THEN <<"face vertex list">>
        ELSE Failing(<<
          <<"face is a shape of its dimension", f.dim = d - 1 /\ f.types /\ f.nvertices = NVerts(fds)>>,
          <<"face index", f.fi = f.pos /\ f.vol>>,
          <<"face reference vertices", f.verts = Verts(fds)>>,
          <<"map sends vertices to the listed vertices",
            \A l \in 1..d : Row(M[l], [k \in 1..Len(f.idx) |-> FxInt(Vt(ds, f, k)[l])])>>,
          <<"map is affine", \A l \in 1..d : Row(mp[l], aff(l))>>,
          <<"map of other arrays", \A k \in DOMAIN f.alts :
             LET a == f.alts[k]
             IN  /\ a.same
                 /\ a.np = 0 \/ LET Q == Force([m \in 1..(d - 1) |-> VHex(a.p[m])])
                                   R == Force([l \in 1..d |-> VHex(a.mp[l])])
                               IN  \A l \in 1..d : VxNear(R[l], affOf(Q, a.np, l), TolAlt)>>,
          <<"normal size", Len(n) = d /\ Len(raw) = d>>,
          <<"unit normal", BLe(BAbs(BSub(nn, FxOne)), Tol)>>,
          <<"perpendicular", \A k \in DOMAIN f.idx : BLe(BAbs(dotI(n, ISub(Vt(ds, f, k), Vt(ds, f, 1)))), Tol)>>,
          <<"outward", BLt(BZero, dotI(n, out))>>,
          <<"unnormalised normal is parallel",
            /\ BLt(BZero, FxDot(raw, n))
            /\ VxNear(VxTimes(FxDot(raw, n), n), raw, Tol)>>,
          <<"edges of faces", \A k \in DOMAIN f.sub :
              LET s == f.sub[k]
              IN  \A l \in 1..d : Row(VHex(s.mv[l]), [i \in 1..Len(s.idx) |-> FxInt(Vt(ds, f, s.idx[i] + 1)[l])])>> >>)
FacesV(e) ==
    LET ds == e.job.ds
        d == ShapeDim(ds)
        F == [k \in 1..Len(e.faces) |-> Set(e.faces[k].idx)]
        each == [k \in 1..Len(e.faces) |-> FaceV(e, e.faces[k])]
        total(l) == FxSum([k \in 1..Len(e.faces) |-> VHex(e.faces[k].raw)[l]])
    IN  IF e.cls # "ok" THEN <<"available">>
        ELSE Failing(<< <<"every facet exactly once", Len(e.faces) = NFacets(ds) /\ {F[k] : k \in DOMAIN F} = Facets(ds)>> >>)
             \o FlattenSeq(each)
             \o (IF FlattenSeq(each) # <<>> THEN <<>> ELSE
                 Failing(<< <<"closed surface", \A l \in 1..d : BLe(BAbs(total(l)), Tol)>> >>))
GeomVerdict(e) == IF e.kind = "shape" THEN ShapeV(e) ELSE FacesV(e)
=============================================================================
