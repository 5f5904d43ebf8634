-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Reference shapes as combinatorial objects.  A shape is the sequence ds  *)
(* of the dimensions of its simplex factors; a vertex is the tuple of its  *)
(* coordinates (each -1 or 1); the first factor's vertices run fastest.    *)
(***************************************************************************)
EXTENDS Big, SequencesExt, FiniteSets, FiniteSetsExt

SimplexVerts(d) == [i \in 1..(d + 1) |-> [l \in 1..d |-> IF l = i - 1 THEN 1 ELSE -1]]
ShapeDim(ds) == FoldLeft(LAMBDA a, v : a + v, 0, ds)
NVerts(ds) == FoldLeft(LAMBDA a, v : a * (v + 1), 1, ds)
NFacets(ds) == FoldLeft(LAMBDA a, v : a + (IF v > 0 THEN v + 1 ELSE 0), 0, ds)
\* position of vertex i (from 1) in factor k (from 0)
VDigit(ds, i, k) == LET stride == FoldLeft(LAMBDA a, v : a * (v + 1), 1, SubSeq(ds, 1, k - 1))
                    IN  ((i - 1) \div stride) % (ds[k] + 1)
Verts(ds) == [i \in 1..NVerts(ds) |->
                FlattenSeq([k \in 1..Len(ds) |-> SimplexVerts(ds[k])[VDigit(ds, i, k) + 1]])]
\* facets, as sets of vertex numbers (from 0): drop one vertex of one factor
Facets(ds) == {{i - 1 : i \in {j \in 1..NVerts(ds) : VDigit(ds, j, k) # v}} :
                 <<k, v>> \in {x \in (1..Len(ds)) \X (0..10) : ds[x[1]] > 0 /\ x[2] <= ds[x[1]]}}
\* all faces: choose a non-empty set of vertices in every factor
RECURSIVE FacesOf(_)
FacesOf(ds) == IF ds = <<>> THEN {<<>>}
               ELSE {<<S>> \o T : S \in (SUBSET (0..Head(ds)) \ {{}}), T \in FacesOf(Tail(ds))}
FaceDim(F) == FoldLeft(LAMBDA a, S : a + Cardinality(S) - 1, 0, F)
FaceVerts(ds, F) == {i - 1 : i \in {j \in 1..NVerts(ds) : \A k \in 1..Len(ds) : VDigit(ds, j, k) \in F[k]}}
\* integer vectors
IDot(u, v) == FoldLeft(LAMBDA a, l : a + u[l] * v[l], 0, [l \in 1..Len(u) |-> l])
ISub(u, v) == [l \in 1..Len(u) |-> u[l] - v[l]]
RECURSIVE IDet(_)
IDet(M) == IF M = <<>> THEN 1
           ELSE FoldLeft(LAMBDA a, c :
                  a + (IF c % 2 = 1 THEN 1 ELSE -1) * M[1][c] *
                      (IF M[1][c] = 0 THEN 0 ELSE
                       IDet(Force([r \in 1..(Len(M) - 1) |-> SubSeq(M[r + 1], 1, c - 1) \o SubSeq(M[r + 1], c + 1, Len(M))]))),
                0, [c \in 1..Len(M) |-> c])
=============================================================================
