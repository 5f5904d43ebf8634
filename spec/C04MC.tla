-------------------------------- MODULE C04MC --------------------------------
(* The combinatorics of the boundary of products of simplices, model checked, *)
(* and the plan of the shapes to look at.                                     *)
EXTENDS Geom, TLC, Json, Params
\* shapes <<form, ds>>
S(d) == <<"P", <<d>>>>
Q(d) == <<"Q", [k \in 1..d |-> 1]>>
T(ds) == <<"T", ds>>
N(ds) == <<"N", ds>>
Shapes == [d \in 1..8 |-> S(d - 1)] \o [d \in 1..7 |-> Q(d - 1)]
   \o <<T(<<>>), T(<<1>>), T(<<3>>), T(<<1, 1>>), T(<<2, 1>>), T(<<1, 2>>), T(<<3, 1>>), T(<<1, 3>>), T(<<1, 1, 1>>), T(<<2, 1, 1>>), T(<<1, 2, 1>>), T(<<1, 1, 2>>),
        T(<<4, 1>>), T(<<0, 1>>), T(<<1, 0>>), T(<<1, 0, 1>>), T(<<5, 1, 1>>), T(<<1, 1, 1, 1>>), T(<<3, 1, 1>>), T(<<0>>),
        N(<<1, 1, 1>>), N(<<2, 1, 1>>), N(<<1, 2, 1>>), N(<<1, 3>>), N(<<1, 0, 1>>) >>
Faced(s) == (s[1] = "P" \/ s[1] = "Q" \/ \A k \in 1..Len(s[2]) : Len(s[2]) = 1) /\ ShapeDim(s[2]) \in 1..3
VARIABLES sh, st
GInit == sh \in 1..Len(Shapes) /\ st = "todo"
\* a closed surface: every ridge lies in exactly two facets; Euler-Poincare; counts;
\* facets are the maximal proper faces; every vertex is in at least d facets
FacetsOK(ds) ==
    LET d == ShapeDim(ds)
        F == Facets(ds)
        All == FacesOf(ds)
        ridges == {FaceVerts(ds, x) : x \in {y \in All : FaceDim(y) = d - 2}}
        chi == FoldSet(LAMBDA x, a : a + (IF FaceDim(x) % 2 = 0 THEN 1 ELSE -1), 0, All)
    IN  /\ Cardinality({Verts(ds)[i] : i \in 1..NVerts(ds)}) = NVerts(ds)
        /\ Cardinality(F) = NFacets(ds)
        /\ F = {FaceVerts(ds, x) : x \in {y \in All : FaceDim(y) = d - 1}}
        /\ d >= 2 => \A r \in ridges : Cardinality({f \in F : r \subseteq f}) = 2
        /\ chi = 1
        /\ \A v \in 0..(NVerts(ds) - 1) : Cardinality({f \in F : v \in f}) >= d
        \* every facet lies in a supporting hyperplane: one linear form vanishes on it
        /\ \A f \in F : Cardinality(f) >= d
GNext == st = "todo" /\ st' = (IF FacetsOK(Shapes[sh][2]) THEN "ok" ELSE "bad") /\ UNCHANGED sh
GInv == st # "bad"
Rec(k, s) == [kind |-> k, form |-> s[1], ds |-> s[2]]
Plan == [i \in 1..Len(Shapes) |-> Rec("shape", Shapes[i])]
        \o LET F == SelectSeq(Shapes, Faced) IN [i \in 1..Len(F) |-> Rec("faces", F[i])]
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
