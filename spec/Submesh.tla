------------------------------ MODULE Submesh ------------------------------
(***************************************************************************)
(* Tessellations.  An element is given by its factors fs = <<dim, order>>; *)
(* nodes are integer tuples (the factors' tuples one after the other); a   *)
(* cell is a sequence of node tuples, one per vertex of the shape, in the  *)
(* shape's vertex order.                                                   *)
(***************************************************************************)
EXTENDS Geom, Big, TLC
Sub_(fs, k, t) == LET s == FoldLeft(LAMBDA a, f : a + f[1], 0, SubSeq(fs, 1, k - 1))
                  IN  SubSeq(t, s + 1, s + fs[k][1])
DsOf(fs) == [k \in 1..Len(fs) |-> fs[k][1]]
Stride(ds, k) == FoldLeft(LAMBDA a, v : a * (v + 1), 1, SubSeq(ds, 1, k - 1))
\* vertex v (from 0) of the cell's factor k
FV(fs, c, k, v) == Sub_(fs, k, c[Stride(DsOf(fs), k) * v + 1])
Code(t) == FoldLeft(LAMBDA a, l : (a * 101) + t[l], 0, [l \in 1..Len(t) |-> l])
SortT(S) == SetToSortSeq(S, LAMBDA a, b : Code(a) < Code(b))
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
FacDet(fs, c, k) == IDet(Force([v \in 1..fs[k][1] |-> Force(ISub(FV(fs, c, k, v), FV(fs, c, k, 0)))]))
IProd(s) == FoldLeft(LAMBDA a, v : a * v, 1, s)
ISum(s) == FoldLeft(LAMBDA a, v : a + v, 0, s)
\* a cell is a product of simplices with the shape's vertex order, positively oriented
CellOK(fs, c) ==
    LET ds == DsOf(fs)
    IN  /\ Len(c) = NVerts(ds)
        /\ Cardinality({c[i] : i \in 1..Len(c)}) = Len(c)
        /\ \A i \in 1..Len(c) : \A k \in 1..Len(fs) : Sub_(fs, k, c[i]) = FV(fs, c, k, VDigit(ds, i, k))
        /\ \A k \in 1..Len(fs) : FacDet(fs, c, k) > 0
CellVol(fs, c) == IProd([k \in 1..Len(fs) |-> FacDet(fs, c, k)])
\* facets of a cell: <<vertex set, the side the cell is on, is it on the boundary>>
OnBoundary(f, S) ==    \* S: set of tuples of a factor f = <<d, N>>
    \/ \E l \in 1..f[1] : \A t \in S : t[l] = 0
    \/ \A t \in S : ISum(t) = f[2]
CellFacets(fs, c) ==
    LET ds == DsOf(fs)
        one(k, v) ==
            LET S == {FV(fs, c, k, u) : u \in (0..fs[k][1]) \ {v}}
                q == SortT(S)
                rows == Force(<<ISub(FV(fs, c, k, v), q[1])>> \o [i \in 1..(Len(q) - 1) |-> ISub(q[i + 1], q[1])])
            IN  <<{c[i] : i \in {j \in 1..Len(c) : VDigit(ds, j, k) # v}}, Sgn(IDet(rows)), OnBoundary(fs[k], S)>>
    IN  {one(x[1], x[2]) : x \in {y \in (1..Len(fs)) \X (0..6) : y[2] <= fs[y[1]][1]}}
NFac(fs) == ISum([k \in 1..Len(fs) |-> fs[k][1] + 1])
\* conforming: nobody else is on my side of my facets, and on every inner facet
\* there is a cell on the other side
Facets_(fs, cells) == UNION {CellFacets(fs, cells[i]) : i \in 1..Len(cells)}
Conforming(fs, cells) ==
    LET F == Facets_(fs, cells)
        inner == {f[1] : f \in {g \in F : ~g[3]}}
        bdry == {f[1] : f \in {g \in F : g[3]}}
    IN  /\ Cardinality(F) = Len(cells) * NFac(fs)
        /\ Cardinality(F) = 2 * Cardinality(inner) + Cardinality(bdry)
Volume(fs) == IProd([k \in 1..Len(fs) |-> fs[k][2] ^ fs[k][1]])
Tessellates(fs, cells) ==
    /\ \A i \in 1..Len(cells) : CellOK(fs, cells[i])
    /\ ISum([i \in 1..Len(cells) |-> CellVol(fs, cells[i])]) = Volume(fs)
    /\ Conforming(fs, cells)
=============================================================================
