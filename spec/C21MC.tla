-------------------------------- MODULE C21MC --------------------------------
(***************************************************************************)
(* Every history up to a length, under every implementation: the safe ones  *)
(* meet the specification; each unsafe one is exposed by some history.  The *)
(* histories replayed are those that expose an unsafe implementation.       *)
(***************************************************************************)
EXTENDS History, Json
VARIABLES hist, nh
MaxLen == IF Quick THEN 5 ELSE 6
Ext(h, n) == {Append(h, Op("call", c)) : c \in {1, 2, 3}} \cup {Append(h, Op(op, k)) : op \in {"write", "args", "read"}, k \in 1..n}
NInit == hist = <<>> /\ nh = 0
NNext == Len(hist) < MaxLen /\ hist' \in Ext(hist, nh) /\ nh' = nh + (IF hist'[Len(hist')].op = "call" THEN 1 ELSE 0)
NInv == \A p \in Safe : Meets(p, hist)

\* the histories of a length, without those that waste steps
Useful(h, op, k) == CASE op = "read" -> h[Len(h)].op # "read"
                      [] OTHER -> ~\E i \in 1..Len(h) : h[i] = Op(op, k)
RECURSIVE Hists(_)
Hists(n) == IF n = 1 THEN << <<Op("call", 1)>>, <<Op("call", 3)>> >>
            ELSE LET P == Hists(n - 1)
                 IN  Force(FlattenSeq([i \in 1..Len(P) |->
                        LET h == P[i]
                            m == Len(Filter(h, LAMBDA o : o.op = "call"))
                        IN  [c \in 1..3 |-> Append(h, Op("call", c))]
                            \o FlattenSeq([k \in 1..m |-> Filter([x \in 1..3 |-> Append(h, Op(<<"write", "args", "read">>[x], k))],
                                                                 LAMBDA g : Useful(h, g[Len(g)].op, k))])]))
Exposes(h) == \E p \in Unsafe : ~Meets(p, h)
HLen == IF Quick THEN 4 ELSE 5
Good == Force(Filter(Hists(HLen), LAMBDA h : h[1].arg = 1 /\ Exposes(h)))
ASSUME \A p \in Unsafe : \E i \in 1..Len(Good) : ~Meets(p, Good[i])

C(f, el, n, s) == [f |-> f, el |-> el, n |-> n, s |-> s]
One == EP(1, 3)
El2 == << EP(2, 2), EQ(2, 2) >>
Els == << EP(1, 3), EP(2, 2), EP(3, 2), EQ(2, 2), EQ(3, 1), ET(<< <<2, 2>>, <<1, 1>> >>) >>
Big2 == << EP(1, 14), EP(2, 5), EQ(2, 4) >>
PQ == << EP(1, 3), EP(2, 2), EP(3, 2), EQ(2, 2), EQ(3, 1) >>
FE(fs, els, ns, ss) == FlattenSeq(Cat2(fs, els, LAMBDA f, el : Cat2(ns, ss, LAMBDA n, s : C(f, el, n, s))))
Alphabet == Force(
       FE(<<"lg", "lgl">>, <<One>>, <<1, 5, 14>>, <<"", "fda", "scipy">>) \o FE(<<"cc">>, <<One>>, <<3, 6, 15>>, <<"", "fda">>)
    \o FE(<<"fejer", "cheb">>, <<One>>, <<2, 5, 14>>, <<"", "2">>) \o FE(<<"gg", "jgq", "jgl">>, <<One>>, <<2, 5, 14>>, <<"", "scipy">>)
    \o FE(<<"kronrod", "kgauss", "mkron", "jgn">>, <<One>>, <<1, 4, 7, 12, 20, 33>>, <<"">>) \o FE(<<"quadgk">>, <<One>>, <<3, 7, 16>>, <<"", "inf", "semi", "vec">>)
    \o FE(<<"xg", "vr">>, <<EP(2, 1), EP(3, 1)>>, <<1, 4, 9>>, <<"">>) \o FE(<<"wv">>, <<EQ(2, 1), EQ(3, 1)>>, <<3, 5, 11>>, <<"">>)
    \o FE(<<"js">>, <<EP(3, 1)>>, <<2, 6, 13>>, <<"">>) \o FE(<<"gm">>, <<EP(1, 1), EP(2, 1), EP(3, 1), EP(4, 1)>>, <<1, 2, 4>>, <<"">>)
    \o FE(<<"lgtp", "lgltp">>, <<EQ(2, 1), EQ(3, 1)>>, <<2, 3, 5>>, <<"">>) \o FE(<<"tpq", "zq">>, <<One>>, <<2>>, <<"">>)
    \o FE(<<"qspace", "qcall">>, Els, <<1>>, <<"">>) \o FE(<<"t1d">>, <<One>>, <<3>>, <<"", "fda">>)
    \o FE(<<"trans", "tlg", "map">>, <<One>>, <<5, 14>>, <<"identity", "sausage", "kte", "strip", "scale", "shift", "cube">>)
    \o FE(<<"wab", "equi", "wabt">>, <<EP(1, 1), EP(2, 1), EP(3, 1)>>, <<2, 5, 8>>, <<"">>) \o FE(<<"espace", "edge", "tuples">>, Els, <<1>>, <<"">>)
    \o FE(<<"lgn", "lgln">>, El2, <<3, 6>>, <<"">>) \o FE(<<"tpn">>, <<One>>, <<2>>, <<"", "one", "dims">>) \o FE(<<"rand">>, Els, <<4, 25>>, <<"">>)
    \o FE(<<"warp">>, <<One>>, <<4, 9>>, <<"">>) \o FE(<<"verts", "shape", "submesh">>, Els, <<1>>, <<"">>) \o FE(<<"faces">>, PQ, <<1>>, <<"">>)
    \o FE(<<"normal">>, PQ, <<0, 1>>, <<"", "raw">>) \o FE(<<"facemap">>, PQ, <<0, 1>>, <<"", "alt">>) \o FE(<<"space", "sfs">>, Els, <<2>>, <<"">>)
    \o FE(<<"jac", "gjac", "sjac">>, <<One>>, <<0, 4, 11>>, <<"", "alt", "big">>) \o FE(<<"basis">>, Els, <<1>>, <<"", "mono", "any">>)
    \o FE(<<"bfun", "bgrad", "bder", "sym">>, Els, <<0, 3>>, <<"", "mono", "alt">>) \o FE(<<"bfun", "bgrad", "bder">>, Els \o Big2, <<3>>, <<"big">>)
    \o FE(<<"pkdo", "gpkdo", "monomial", "gmonomial">>, <<EP(2, 1), EP(3, 1)>>, <<1>>, <<"", "alt", "big">>)
    \o FE(<<"tpb">>, <<One>>, <<1>>, <<"">>)
    \o FE(<<"vdm", "mvdm", "res", "resls", "diff", "diff2", "diffm", "mass", "imass", "massf", "test", "bilin", "qmass", "nqmass">>, Els, <<1>>, <<"", "alt">>)
    \o FE(<<"vdm", "mvdm", "res", "resls", "diff", "diff2", "diffm", "mass", "imass", "test", "nqmass">>, Big2, <<1>>, <<"", "big">>) \o FE(<<"vdm", "mvdm", "res">>, Els, <<1>>, <<"big">>)
    \o FE(<<"perm">>, PQ, <<0, 1>>, <<"">>) \o FE(<<"diag">>, <<One>>, <<3>>, <<"">>)
    \o FE(<<"fmass", "nfmass", "fqmass", "nfqmass">>, <<EP(2, 2), EP(3, 2), EQ(2, 2), EQ(3, 1)>>, <<0, 2>>, <<"", "alt">>)
    \o FE(<<"degvec", "estmat", "mnv">>, Els, <<1>>, <<"", "alt">>) \o FE(<<"fit", "eres", "skyline">>, <<EP(1, 3), EP(2, 2), EP(3, 2)>>, <<1>>, <<"", "alt">>)
    \o FE(<<"baseline", "fitmat", "aff", "affinv", "affobj">>, <<One>>, <<1>>, <<"">>)
    \o FE(<<"u2b", "b2u", "b2e", "e2u", "mono", "monoint">>, <<EP(1, 3), EP(2, 2), EP(3, 2)>>, <<1>>, <<"", "alt", "big">>) \o FE(<<"leb">>, PQ, <<1>>, <<"", "alt">>)
    \o FE(<<"resh", "unresh">>, <<EQ(2, 2), EQ(3, 1), ET(<< <<2, 2>>, <<1, 1>> >>)>>, <<1>>, <<"">>)
    \o FE(<<"lin", "linn", "orth", "wts", "rj", "gn">>, Els, <<1>>, <<"", "alt">>) \o FE(<<"guess">>, <<One>>, <<1>>, <<"">>))
Failing3 == Force(FE(<<"x-xg", "x-vr", "x-wv", "x-js", "x-kron", "x-space", "x-face", "x-vdm", "x-mass", "x-resh", "x-leb",
                     "x-tpq", "x-sub", "x-aff", "x-qcall", "x-jg", "x-trans">>, <<One>>, <<1>>, <<"">>)
    \o FE(<<"x-quadgk">>, <<One>>, <<0, 1, 5>>, <<"">>) \o FE(<<"x-res", "x-orth">>, <<EP(2, 2), EQ(2, 2)>>, <<1>>, <<"">>))
NA == Len(Alphabet)
\* share = 1: the caller passes the same objects (spaces, shapes, bases) again, and points in the same buffer
JobS(fam, calls, h, t, share) == [fam |-> fam, calls |-> calls, hist |-> h, threads |-> t, share |-> share]
Job(fam, calls, h, t) == JobS(fam, calls, h, t, HH(Len(h) + (131 * t), Len(calls) + Len(calls[1].f)) % 2)
\* after the history, everything is read and called once more
Closing(h) == LET m == Len(Filter(h, LAMBDA o : o.op = "call"))
              IN  h \o [k \in 1..m |-> Op("read", k)] \o <<Op("call", 1), Op("call", 2)>>
Fail(i) == Failing3[1 + (HH(i, 3) % Len(Failing3))]
Rep == IF Quick THEN 3 ELSE 24
\* every call in the first place Rep times: with a neighbour in the alphabet (often the same family), then any
PairJobs == FlattenSeq([i \in 1..NA |-> [r \in 1..Rep |->
               Job("history", <<Alphabet[i], IF r = 1 THEN Alphabet[1 + (i % NA)] ELSE Alphabet[1 + (HH(i, r) % NA)], Fail(i + r)>>,
                   Closing(Good[1 + (HH(i + (NA * r), 5) % Len(Good))]), 0)]])
\* every exposing history at least once
HistJobs == [k \in 1..Len(Good) |-> Job("history", <<Alphabet[1 + (HH(k, 7) % NA)], Alphabet[1 + (HH(k, 8) % NA)], Fail(k)>>, Closing(Good[k]), 0)]
\* the canonical attack on every call: overwrite its result and its arguments, call it twice
FullJobs == [i \in 1..NA |-> Job("full", <<Alphabet[i], Alphabet[1 + (HH(i, 9) % NA)], Fail(i)>>,
               <<Op("call", 1), Op("call", 1), Op("write", 1), Op("read", 2), Op("call", 1), Op("args", 2), Op("read", 2), Op("write", 2), Op("call", 3), Op("call", 1),
                 Op("read", 3), Op("call", 2), Op("write", 5), Op("args", 5), Op("read", 3), Op("call", 1), Op("args", 3), Op("args", 1), Op("call", 1)>>, 0)]
\* long walks
WalkOps(salt, len) == FoldLeft(LAMBDA st, i :
        LET x == HH(i, salt)
            y == HH(i + 5000, salt)
            mk(o) == [h |-> Append(st.h, o), n |-> st.n + (IF o.op = "call" THEN 1 ELSE 0)]
        IN  IF st.n = 0 \/ (x % 5) < 2 THEN mk(Op("call", 1 + (y % 12)))
            ELSE mk(Op(<<"write", "args", "read">>[1 + (x % 3)], 1 + (y % st.n))), [h |-> <<>>, n |-> 0], RG(1, len)).h
WalkCalls(salt) == [k \in 1..12 |-> IF k = 12 THEN Fail(salt) ELSE Alphabet[1 + (HH(k + 900, salt) % NA)]]
WalkJobs == [w \in 1..(IF Quick THEN 60 ELSE 400) |-> Job("walk", WalkCalls(w), WalkOps(w, IF Quick THEN 40 ELSE 80), 0)]
ThreadJobs == [w \in 1..(IF Quick THEN 24 ELSE 160) |-> Job("threads", WalkCalls(10000 + w),
                 [i \in 1..(IF Quick THEN 48 ELSE 96) |-> Op("call", 1 + (HH(i, w) % 12))], 2 + (w % 5))]
\* all calls of a family, forwards and backwards; all calls of all families in some order, twice
InFam(f) == Filter(Alphabet, LAMBDA c : c.f = f)
FamNames == Force(FoldLeft(LAMBDA q, c : IF \E i \in DOMAIN q : q[i] = c.f THEN q ELSE Append(q, c.f), <<>>, Alphabet))
FamJobs == [i \in 1..(2 * Len(FamNames)) |-> LET A == InFam(FamNames[1 + (i % Len(FamNames))])
                                           m == Len(A)
              IN  JobS("family", A, [k \in 1..m |-> Op("call", k)] \o [k \in 1..m |-> Op("call", m + 1 - k)] \o [k \in 1..m |-> Op("call", 1 + (HH(k, i) % m))]
                                   \o [k \in 1..(2 * m) |-> Op("read", k)], 0, i \div (Len(FamNames) + 1))]
GrandJobs == [w \in 1..(IF Quick THEN 8 ELSE 24) |->
              LET A == Alphabet \o Failing3
                  m == Len(A)
                  step == <<1, 7, 11, 13, 17, 19, 23, 29>>[1 + (w % 8)]
              IN  Job("grand", A, [k \in 1..m |-> Op("call", 1 + ((step * (k + w)) % m))] \o [k \in 1..m |-> Op("write", k)]
                                  \o [k \in 1..m |-> Op("call", 1 + (((step + 30) * (k + w)) % m))], 0)]
Plan == FamJobs \o GrandJobs \o FullJobs \o PairJobs \o HistJobs \o WalkJobs \o ThreadJobs
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan), NA, Len(Good)>>)
=============================================================================
