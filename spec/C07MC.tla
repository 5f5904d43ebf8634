-------------------------------- MODULE C07MC --------------------------------
(***************************************************************************)
(* Two models: the listing of node tuples (BasisPlan's index model) and    *)
(* the rejection sampling of random nodes, whose behaviours are replayed   *)
(* against the library with a scripted random generator.                   *)
(***************************************************************************)
EXTENDS BasisPlan

\* rejection sampling: want nodes are needed; each batch asks for the missing ones;
\* the stream decides which points are inside
VARIABLES want, got, hist
RInit == want \in 1..3 /\ got = 0 /\ hist = <<>>
Pats(n) == IF n = 1 THEN {<<0>>, <<1>>} ELSE IF n = 2 THEN {<<0,0>>, <<0,1>>, <<1,0>>, <<1,1>>}
           ELSE {<<a, b, c>> : a \in 0..1, b \in 0..1, c \in 0..1}
CountIn(p) == FoldLeft(LAMBDA a, x : a + x, 0, p)
RNext == /\ got < want /\ Len(hist) < 4
         /\ \E p \in Pats(want - got) : got' = got + CountIn(p) /\ hist' = Append(hist, p)
         /\ UNCHANGED want
RInv == /\ got <= want
        /\ got = CountIn(FlattenSeq(hist))
        /\ got = want => hist # <<>> /\ hist[Len(hist)][Len(hist[Len(hist)])] \in 0..1
RIdle == want = 0 /\ got = 0 /\ hist = <<>>
NInit == \/ BInit /\ RIdle
         \/ RInit /\ OrthoIdle /\ me = 0 /\ mv = "ok"
NNext == \/ BNext /\ UNCHANGED <<want, got, hist>>
         \/ RNext /\ UNCHANGED <<vars, me, mv>>
NInv == BInv /\ (want > 0 => RInv)
\* streams for the replay: bits (inside / outside), repeated by the driver until enough
Streams == << <<1>>, <<0, 1>>, <<0, 0, 0, 0, 0, 0, 0, 1>>, <<1, 0>>, <<1, 1, 0, 0, 0, 0, 1>>, <<0, 0, 1, 0, 1, 1, 1, 0>>,
              <<1, 1, 1, 0>>, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>> >>
NEls == [n \in 1..4 |-> EP(0, n - 1)] \o [n \in 1..(IF Quick THEN 20 ELSE 32) |-> EP(1, n - 1)]
    \o [n \in 1..(IF Quick THEN 20 ELSE 26) |-> EP(2, n - 1)] \o [n \in 1..(IF Quick THEN 12 ELSE 19) |-> EP(3, n - 1)] \o <<EP(3, 15), EP(3, 16)>>
    \o <<EP(1, 60), EP(1, 129)>> \o [n \in 1..5 |-> EP(4, n - 1)] \o [n \in 1..4 |-> EP(5, n - 1)] \o ProdEls
    \o << ET(<< <<0, 2>>, Seg(3) >>), ET(<<Seg(2), <<0, 1>> >>), ET(<< <<4, 2>>, Seg(2) >>), ET(<<>>), EQ(0, 3), EQ(6, 1) >>
NJ(f, el, lst) == [fam |-> f, el |-> el, listing |-> lst, n |-> 0, stream |-> <<>>, uni |-> SpaceDim(el.fs) <= (IF Quick THEN 90 ELSE 200) /\ \A k \in DOMAIN el.fs : el.fs[k][2] <= 33]
RJ(el, n, st, f) == [fam |-> f, el |-> el, listing |-> 0, n |-> n, stream |-> st, uni |-> FALSE]
RShapes == [d \in 1..6 |-> EP(d - 1, 0)] \o [d \in 1..5 |-> EQ(d, 0)] \o << ET(<< <<2, 0>>, Seg(0) >>), ET(<<Seg(0), <<2, 0>> >>), ET(<<Seg(0), <<3, 0>>, Seg(0)>>), EQ(0, 0), ET(<< <<0, 0>>, Seg(0)>>) >>
Simplices == SelectSeq(NEls, LAMBDA e : e.form = "P")
\* products of arbitrary node sets: <<dim, number of nodes, type, given as a vector?>>
TSets == << << <<1, 3, "i8", TRUE>>, <<1, 2, "f8", TRUE>> >>, << <<1, 2, "f8", TRUE>>, <<1, 3, "i8", TRUE>> >>,
            << <<2, 3, "f4", FALSE>>, <<1, 2, "f8", TRUE>> >>, << <<1, 4, "i4", FALSE>>, <<2, 3, "f4", FALSE>>, <<1, 2, "f8", TRUE>> >>,
            << <<1, 3, "f4", TRUE>>, <<1, 2, "i8", TRUE>>, <<3, 2, "i8", FALSE>> >>, << <<2, 5, "f8", FALSE>> >>, << <<1, 1, "i8", TRUE>>, <<1, 1, "f8", TRUE>> >>,
            << <<3, 2, "f8", FALSE>>, <<2, 1, "f8", FALSE>>, <<1, 3, "f8", TRUE>>, <<1, 2, "i4", TRUE>> >>,
            << <<0, 1, "f8", FALSE>>, <<1, 3, "f8", TRUE>> >>, << <<1, 0, "f8", TRUE>>, <<1, 3, "f8", TRUE>> >>, <<>> >>
TJ(s, f, d) == [fam |-> f, el |-> EP(0, 0), listing |-> d, n |-> 0, stream |-> <<>>, uni |-> FALSE, sets |-> s]
TPlan == [i \in 1..Len(TSets) |-> TJ(TSets[i], "tpn", i)]
      \o Cat2(<< <<1, 3, "f8", TRUE>>, <<1, 2, "i8", FALSE>>, <<1, 4, "f4", FALSE>>, <<1, 1, "f8", TRUE>> >>, RG(0, IF Quick THEN 4 ELSE 6),
              LAMBDA s, d : TJ([k \in 1..d |-> s], "tpi", d))
Plan == TPlan \o [i \in 1..Len(NEls) |-> NJ("equi", NEls[i], 0)] \o [i \in 1..Len(NEls) |-> NJ("clus", NEls[i], 0)]
    \o Cat2(Simplices, <<0, 1, 2>>, LAMBDA e, s : NJ("equidist", e, s))
    \o Cat2(SelectSeq(Simplices, LAMBDA e : e.fs[1][1] <= 3 /\ e.fs[1][2] > 0), <<0, 1, 2, 3>>, LAMBDA e, s : NJ("wb", e, s))
    \o Cat2(RG(0, 4), RG(0, IF Quick THEN 6 ELSE 12), LAMBDA d, n : NJ("lgt", EQ(d, IF d >= 3 THEN Min2(n, 3) ELSE n), 0))
    \o Cat2(RG(0, 4), RG(1, IF Quick THEN 9 ELSE 14), LAMBDA d, n : NJ("lglt", EQ(d, IF d >= 3 THEN Min2(n, 3) ELSE n), 0))
    \o Cat2(RShapes, <<0, 1, 2, 7, 40, 300, 20000>>, LAMBDA e, n : RJ(e, n, <<>>, "random"))
    \o Cat2(RShapes, <<1, 2, 5, 16>>, LAMBDA e, n : RJ(e, n, Streams[1], "stream"))
    \o FlattenSeq([k \in 1..(Len(Streams) - 1) |-> Cat2(RShapes, <<1, 2, 3, 5, 16>>, LAMBDA e, n : RJ(e, n, Streams[k + 1], "stream"))])
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
