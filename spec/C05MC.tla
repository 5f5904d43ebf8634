-------------------------------- MODULE C05MC --------------------------------
(* The algebra of products, model checked on all small terms; the plan.       *)
EXTENDS Algebra, Json, Params
RG(lo, hi) == [i \in 1..(hi - lo + 1) |-> lo + i - 1]
Cat2(A, B, f(_, _)) == FlattenSeq([i \in 1..Len(A) |-> [k \in 1..Len(B) |-> f(A[i], B[k])]])
X(ts) == <<"X", ts>>
\* shapes
SLeaves == <<<<"S", 1>>, <<"S", 2>>, <<"S", 3>>, <<"Q", 2>>, <<"Q", 1>>, <<"S", 0>>, <<"Q", 0>>, <<"Q", 3>>, X(<<>>)>>
S1 == [i \in 1..7 |-> <<"S", i - 1>>] \o [i \in 1..7 |-> <<"Q", i - 1>>] \o <<X(<<>>)>>
S2 == [i \in 1..Len(SLeaves) |-> X(<<SLeaves[i]>>)] \o Cat2(SLeaves, SLeaves, LAMBDA a, b : X(<<a, b>>))
S3 == FlattenSeq([i \in 1..Len(SLeaves) |-> Cat2(SLeaves, SLeaves, LAMBDA a, b : X(<<SLeaves[i], a, b>>))])
SN == FlattenSeq([i \in 1..6 |-> Cat2(<<1, 2>>, S2, LAMBDA p, t : IF p = 1 THEN X(<<SLeaves[i], t>>) ELSE X(<<t, SLeaves[i]>>))])
      \o [i \in 1..Len(S2) |-> X(<<X(<<S2[i]>>), <<"S", 1>> >>)]
ShapeTerms == S1 \o S2 \o S3 \o SN
\* spaces
PLeaves == << <<"S", 1, 2>>, <<"S", 2, 2>>, <<"S", 3, 1>>, <<"Q", 2, 2>>, <<"Q", 2, 3>>, <<"S", 1, 0>>, <<"S", 0, 2>>, <<"Q", 0, 2>>, <<"Q", 1, 3>>, X(<<>>)>>
P1 == Cat2(RG(0, 5), RG(0, 6), LAMBDA d, n : <<"S", d, n>>) \o Cat2(RG(0, 5), RG(0, 6), LAMBDA d, n : <<"Q", d, n>>) \o <<X(<<>>)>>
P2 == [i \in 1..Len(PLeaves) |-> X(<<PLeaves[i]>>)] \o Cat2(PLeaves, PLeaves, LAMBDA a, b : X(<<a, b>>))
P3 == FlattenSeq([i \in 1..Len(PLeaves) |-> Cat2(PLeaves, PLeaves, LAMBDA a, b : X(<<PLeaves[i], a, b>>))])
PN_ == FlattenSeq([i \in 1..6 |-> Cat2(<<1, 2>>, P2, LAMBDA p, t : IF p = 1 THEN X(<<PLeaves[i], t>>) ELSE X(<<t, PLeaves[i]>>))])
SpaceTerms == P1 \o P2 \o P3 \o PN_
\* the model: grouping does not matter, order does
VARIABLES kind, at, ver
AInit == kind \in {"shape", "space"} /\ at \in 1..(IF kind = "shape" THEN Len(ShapeTerms) ELSE Len(SpaceTerms)) /\ ver = "todo"
TermOK(t, shp) ==
    LET n == NF(t)
        kids == IF t[1] = "X" THEN t[2] ELSE <<>>
        nk == [k \in 1..Len(kids) |-> NF(kids[k])]
    IN  /\ n.cls # "error"
        \* dimensions add, space dimensions and vertices multiply, orders of factors keep
        /\ t[1] = "X" =>
             /\ Dim(n.fs) = FoldLeft(LAMBDA a, x : a + Dim(x.fs), 0, nk)
             /\ SpDim(n.fs) = FoldLeft(LAMBDA a, x : a * SpDim(x.fs), 1, nk)
             /\ NV(n.fs) = FoldLeft(LAMBDA a, x : a * NV(x.fs), 1, nk)
             /\ n.fs = FlattenSeq([k \in 1..Len(nk) |-> nk[k].fs])
             \* regrouping gives the same value
             /\ Len(kids) >= 2 =>
                  /\ NF(X(<<X(SubSeq(kids, 1, Len(kids) - 1)), kids[Len(kids)]>>)) = n
                  /\ NF(X(<<kids[1], X(Tail(kids))>>)) = n
                  /\ NF(X(<<t>>)) = n
             \* inserting the empty product changes nothing
             /\ Len(kids) >= 2 => NF(X(<<X(<<>>)>> \o kids)) = n
        \* a segment is a segment
        /\ n.cls = "Q" => Dim(n.fs) # 1
        /\ n.cls = "S" => Len(n.fs) = 1
        /\ shp => (ShapeOK(t) = (Cardinality({k \in 1..Len(n.fs) : n.fs[k][1] # 1}) <= 1))
ANext == ver = "todo" /\ ver' = (IF TermOK(IF kind = "shape" THEN ShapeTerms[at] ELSE SpaceTerms[at], kind = "shape")
                                 THEN "ok" ELSE "bad") /\ UNCHANGED <<kind, at>>
AInv == ver # "bad"

\* pairs of terms compared with each other
PairTerms == S1 \o [i \in 1..60 |-> (S2 \o SN)[((i * 5) % Len(S2 \o SN)) + 1]] \o S2
R(k, t, o) == [kind |-> k, term |-> t, orders |-> o]
SpaceFor == Cat2(SelectSeq(S1 \o S2 \o SN, ShapeOK), <<0, 1, 3>>, LAMBDA t, n : R("spacefor", t, <<n>>))
          \o LET TT == SelectSeq(S2 \o S3 \o SN, LAMBDA t : ShapeOK(t) /\ NF(t).cls = "X")
             IN  [i \in 1..Len(TT) |-> R("spacefors", TT[i], [k \in 1..Len(NF(TT[i]).fs) |-> (k * 3 + i) % 5])]
\* beyond machine integers
BigShapes == << <<"Q", 16>>, <<"Q", 31>>, <<"Q", 32>>, <<"Q", 40>>, <<"Q", 63>>, <<"Q", 64>>, <<"Q", 70>>, <<"S", 40>>, <<"S", 100>>,
                X(<< <<"Q", 40>>, <<"S", 2>> >>), X(<< <<"S", 5>>, <<"Q", 64>> >>), X(<< <<"Q", 33>>, <<"Q", 34>>, <<"S", 1>> >>) >>
BigSpaces == << <<"Q", 9, 10>>, <<"Q", 20, 10>>, <<"Q", 40, 3>>, <<"Q", 64, 1>>, <<"Q", 63, 1>>, <<"Q", 3, 2000>>, <<"Q", 30, 0>>, <<"S", 30, 30>>, <<"S", 12, 25>>,
                <<"S", 40, 60>>, <<"S", 3, 5000>>, <<"S", 2, 100000>>, X(<< <<"Q", 20, 9>>, <<"S", 3, 40>> >>), X(<< <<"S", 10, 10>>, <<"S", 11, 11>>, <<"S", 12, 12>>, <<"S", 13, 13>> >>),
                X(<< <<"S", 40, 40>>, <<"Q", 2, 1>> >>) >>
Plan == [i \in 1..Len(BigShapes) |-> R("shape", BigShapes[i], <<>>)]
        \o [i \in 1..Len(BigSpaces) |-> R("space", BigSpaces[i], <<>>)]
        \o Cat2(SelectSeq(BigShapes, ShapeOK), <<1, 7>>, LAMBDA t, n : R("spacefor", t, <<n>>))
        \o [i \in 1..Len(ShapeTerms) |-> R("shape", ShapeTerms[i], <<>>)]
        \o [i \in 1..Len(SpaceTerms) |-> R("space", SpaceTerms[i], <<>>)]
        \o SpaceFor
        \o LET PT == SelectSeq(PairTerms, ShapeOK) IN [i \in 1..Len(PT) |-> R("pairs", X(<<PT[i]>> \o PT), <<>>)]
        \o <<R("faces", <<"S", 1>>, <<>>), R("faces", <<"S", 2>>, <<>>), R("faces", <<"S", 3>>, <<>>), R("faces", <<"Q", 2>>, <<>>), R("faces", <<"Q", 3>>, <<>>)>>
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
