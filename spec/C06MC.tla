-------------------------------- MODULE C06MC --------------------------------
(***************************************************************************)
(* The subdivision of simplices, modelled as a sweep over the nodes that   *)
(* adds the cells of each node's lattice cube that lie in the element, and *)
(* of products as products of the factors' cells.  Invariants: the cells   *)
(* so far never overlap (no two on the same side of a facet); at the end   *)
(* they tessellate the element.                                            *)
(***************************************************************************)
EXTENDS Submesh, Json, Params
RG(lo, hi) == [i \in 1..(hi - lo + 1) |-> lo + i - 1]
Cat2(A, B, f(_, _)) == FlattenSeq([i \in 1..Len(A) |-> [k \in 1..Len(B) |-> f(A[i], B[k])]])
\* cells of a lattice cube: all paths from one corner (Kuhn) for a cube do not respect the simplex;
\* these templates do: they are cut by the planes sum = const
Templates(d) ==
    CASE d = 1 -> << << <<0>>, <<1>> >> >>
      [] d = 2 -> << << <<0,0>>, <<1,0>>, <<0,1>> >>, << <<1,0>>, <<1,1>>, <<0,1>> >> >>
      [] d = 3 -> << << <<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>, << <<1,0,1>>, <<1,0,0>>, <<0,0,1>>, <<0,1,0>> >>,
                     << <<1,0,1>>, <<0,1,1>>, <<0,1,0>>, <<0,0,1>> >>, << <<1,0,0>>, <<0,1,0>>, <<1,0,1>>, <<1,1,0>> >>,
                     << <<0,1,1>>, <<0,1,0>>, <<1,1,0>>, <<1,0,1>> >>, << <<0,1,1>>, <<1,1,1>>, <<1,0,1>>, <<1,1,0>> >> >>
IAdd(u, v) == [l \in 1..Len(u) |-> u[l] + v[l]]
RECURSIVE Lat(_, _)
Lat(d, n) == IF d = 0 THEN <<<<>>>> ELSE FlattenSeq([k \in 1..(n + 1) |-> LET s == Lat(d - 1, n - k + 1) IN [i \in 1..Len(s) |-> <<k - 1>> \o s[i]]])
SimplexCells(d, n) ==
    LET L == Lat(d, n)
        Tm == Templates(d)
    IN  SelectSeq(Cat2(L, Tm, LAMBDA t, c : Force([v \in 1..(d + 1) |-> Force(IAdd(t, c[v]))])),
                  LAMBDA c : \A v \in 1..(d + 1) : ISum(c[v]) <= n)
ProdCells(fs) ==
    LET ds == DsOf(fs)
        C == Force([k \in 1..Len(fs) |-> SimplexCells(fs[k][1], fs[k][2])])
        n == IProd([k \in 1..Len(fs) |-> Len(C[k])])
        at(i, k) == (((i - 1) \div IProd([m \in 1..(k - 1) |-> Len(C[m])])) % Len(C[k])) + 1
    IN  Force([i \in 1..n |-> Force([v \in 1..NVerts(ds) |-> FlattenSeq([k \in 1..Len(fs) |-> C[k][at(i, k)][VDigit(ds, v, k) + 1]])])])
MEls == << << <<1, 4>> >>, << <<2, 1>> >>, << <<2, 2>> >>, << <<2, 4>> >>, << <<3, 1>> >>, << <<3, 2>> >>, << <<3, 3>> >>,
           << <<1, 2>>, <<1, 3>> >>, << <<2, 2>>, <<1, 2>> >>, << <<1, 2>>, <<2, 2>> >>, << <<3, 2>>, <<1, 2>> >>, << <<1, 2>>, <<1, 2>>, <<1, 3>> >> >>
MCells == Force([i \in 1..Len(MEls) |-> ProdCells(MEls[i])])
VARIABLES el, done
SInit == el \in 1..Len(MEls) /\ done = <<>>
SNext == /\ Len(done) < Len(MCells[el])
         /\ done' = Append(done, MCells[el][Len(done) + 1]) /\ UNCHANGED el
SInv == LET fs == MEls[el] IN
        /\ done # <<>> => CellOK(fs, done[Len(done)])
        /\ Cardinality(Facets_(fs, done)) = Len(done) * NFac(fs)
        /\ (Len(done) = Len(MCells[el])) = Tessellates(fs, done)

\* the plan: elements and listings of their nodes (0: as the library lists them,
\* 1: reversed, otherwise shuffled)
T(fs) == <<"T", fs>>
Els == [n \in 1..13 |-> <<"P", << <<1, n - 1>> >> >>] \o [n \in 1..(IF Quick THEN 13 ELSE 18) |-> <<"P", << <<2, n - 1>> >> >>]
    \o [n \in 1..(IF Quick THEN 8 ELSE 12) |-> <<"P", << <<3, n - 1>> >> >>]
    \o [n \in 1..6 |-> <<"Q", [k \in 1..2 |-> <<1, n - 1>>]>>] \o [n \in 1..5 |-> <<"Q", [k \in 1..3 |-> <<1, n - 1>>]>>]
    \o <<<<"Q", [k \in 1..4 |-> <<1, 1>>]>>, <<"Q", [k \in 1..4 |-> <<1, 2>>]>>, <<"Q", [k \in 1..5 |-> <<1, 1>>]>> >>
    \o Cat2(RG(0, 3), RG(0, 3), LAMBDA a, b : T(<< <<2, a>>, <<1, b>> >>))
    \o Cat2(RG(0, 3), RG(0, 3), LAMBDA a, b : T(<< <<1, a>>, <<2, b>> >>))
    \o Cat2(RG(1, 4), RG(1, 4), LAMBDA a, b : T(<< <<1, a>>, <<1, b>> >>))
    \o << T(<< <<3, 1>>, <<1, 1>> >>), T(<< <<3, 2>>, <<1, 1>> >>), T(<< <<1, 2>>, <<3, 2>> >>), T(<< <<1, 1>>, <<3, 3>> >>),
          T(<< <<1, 1>>, <<2, 2>>, <<1, 2>> >>), T(<< <<2, 2>>, <<1, 1>>, <<1, 2>> >>), T(<< <<1, 2>>, <<1, 1>>, <<2, 2>> >>),
          T(<< <<1, 1>>, <<1, 2>>, <<1, 3>> >>), T(<< <<1, 3>>, <<1, 1>>, <<1, 2>> >>), T(<< <<1, 2>>, <<1, 1>>, <<1, 1>>, <<1, 2>> >>) >>
    \o (IF Quick THEN <<>> ELSE
        << T(<< <<2, 6>>, <<1, 4>> >>), T(<< <<1, 5>>, <<2, 5>> >>), T(<< <<3, 3>>, <<1, 3>> >>), <<"Q", [k \in 1..3 |-> <<1, 6>>]>>, <<"Q", [k \in 1..4 |-> <<1, 3>>]>> >>)
Plan == Cat2(Els, IF Quick THEN RG(0, 3) ELSE RG(0, 9), LAMBDA e, s : [form |-> e[1], fs |-> e[2], listing |-> s])
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
