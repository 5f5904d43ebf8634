-------------------------------- MODULE C22MC --------------------------------
(***************************************************************************)
(* Two machines: pairs of a space and a shape grown factor by factor (and   *)
(* nested), run through the staged dispatch; and the tables of parameters.   *)
(***************************************************************************)
EXTENDS Guards, Json
VARIABLES gs, gh, gk
MaxF == 3
MaxD == IF Quick THEN 2 ELSE 3
Terms == {Leaf(d) : d \in 0..MaxD} \cup {Prod(<<>>), Other(1)}
Grow(x, y) == CASE x.t = "x" -> x
                [] x.t = "s" -> Prod(<<x, y>>)
                [] OTHER -> Prod(Append(x.parts, y))
NInit == gs \in Terms /\ gh \in Terms /\ gk = "pair"
NNext == /\ gk' = gk
         /\ \/ \E d \in 0..MaxD : Len(Flat(gs)) < MaxF /\ gs.t # "x" /\ gs' = Grow(gs, Leaf(d)) /\ gh' = gh
            \/ \E d \in 0..MaxD : Len(Flat(gh)) < MaxF /\ gh.t # "x" /\ gh' = Grow(gh, Leaf(d)) /\ gs' = gs
            \/ \* nesting changes nothing
               gs.t = "t" /\ Len(gs.parts) = 2 /\ gs' = Prod(<<gs>>) /\ gh' = gh
            \/ gh.t = "t" /\ Len(gh.parts) = 2 /\ gh' = Prod(<<gh>>) /\ gs' = gs
All == {Stages[i] : i \in 1..5}
NInv == /\ RunDispatch(All, gs, gh) = Expect2(gs, gh)
        /\ RunDispatch(All \ {"total"}, gs, gh) = Expect2(gs, gh)
        /\ (Match(gs, gh) => DimOf(gs) = DimOf(gh))
        /\ (Match(gs, gh) <=> Match(gh, gs))
(* ---- the plan -------------------------------------------------------------- *)
\* terms of the plan: leaves, products (some nested), others
FS == IF Quick THEN << <<>>, <<1, 1>>, <<1, 1, 1>>, <<2, 1>>, <<1, 2>>, <<0, 1>>, <<1, 0>>, <<0, 0>>, <<3, 1>>, <<1, 1, 2>>, <<2, 2>>, <<1, 3>>, <<0, 2>>, <<1, 1, 1, 1>>, <<1>>, <<2>>, <<1, 1, 0>>, <<0, 1, 1>>, <<2, 1, 0>> >>
      ELSE << <<>> >> \o Cat2(RG(0, 4), <<0>>, LAMBDA a, z : <<a>>) \o Cat2(RG(0, 4), RG(0, 4), LAMBDA a, b : <<a, b>>)
           \o Cat2(Cat2(RG(0, 3), RG(0, 3), LAMBDA a, b : <<a, b>>), RG(0, 3), LAMBDA p, c : p \o <<c>>)
           \o << <<1, 1, 1, 1>>, <<1, 1, 2, 1>>, <<2, 1, 1, 1>> >>
Plain == [i \in 1..5 |-> Leaf(i - 1)] \o [i \in 1..Len(FS) |-> Prod([k \in 1..Len(FS[i]) |-> Leaf(FS[i][k])])]
Nested == << Prod(<<Leaf(1), Prod(<<Leaf(1), Leaf(1)>>)>>), Prod(<<Prod(<<Leaf(1), Leaf(1)>>), Leaf(2)>>), Prod(<<Prod(<<Leaf(2)>>)>>),
             Prod(<<Prod(<<>>), Leaf(2), Leaf(1)>>), Prod(<<Prod(<<Leaf(1), Leaf(1)>>)>>) >>
SpaceTerms == Plain \o Nested \o [i \in 1..9 |-> Other(i)]
ShapeTerms == Filter(Plain \o Nested, ShapeOK) \o [i \in 1..9 |-> Other(i)]
\* orders of the factors of a space
OrdOf(v, i, k) == <<2, 1 + ((i + k) % 3), IF k = 1 THEN 0 ELSE 3>>[v]
PairPlan == FlattenSeq([v \in 1..(IF Quick THEN 1 ELSE 3) |->
             [i \in 1..Len(SpaceTerms) |-> [kind |-> "pairs", space |-> SpaceTerms[i], orders |-> [k \in 1..Max2(1, Len(Flat(SpaceTerms[i]))) |-> OrdOf(v, i, k)],
                                            shapes |-> ShapeTerms]]])
FacePlan == << [kind |-> "facepairs", d |-> 1, form |-> "S"], [kind |-> "facepairs", d |-> 2, form |-> "S"], [kind |-> "facepairs", d |-> 3, form |-> "S"],
               [kind |-> "facepairs", d |-> 2, form |-> "H"], [kind |-> "facepairs", d |-> 3, form |-> "H"] >>
\* every stage that is needed is exposed by a pair of the plan
Exposed(st) == \E i \in DOMAIN SpaceTerms, k \in DOMAIN ShapeTerms :
                  LET r == RunDispatch(All \ {st}, SpaceTerms[i], ShapeTerms[k])
                  IN  (IF st = "kind" THEN TRUE ELSE r = "ok") /\ r # Expect2(SpaceTerms[i], ShapeTerms[k])
ASSUME \A st \in Needed : Exposed(st)
\* every class of parameters has an accepted and a rejected member
Classes == {Jobs[i].c : i \in DOMAIN Jobs}
ASSUME PrintT(<<"PARAMS", Len(Jobs), Cardinality(Classes)>>)
OneSided == {"random", "equi", "verts", "othershape", "otherspace", "prismfaces", "monomass"}
ASSUME \A c \in Classes \ OneSided : (\E i \in DOMAIN Jobs : Jobs[i].c = c /\ Jobs[i].want = OKW) /\ \E i \in DOMAIN Jobs : Jobs[i].c = c /\ Jobs[i].want # OKW
Plan == PairPlan \o FacePlan \o Jobs
ASSUME ndJsonSerialize("plan.ndjson", Plan)
=============================================================================
