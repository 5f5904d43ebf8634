-------------------------------- MODULE C03MC --------------------------------
(***************************************************************************)
(* Composition of quadrature rules, as a model.  A rule is                 *)
(*   [d: dimension, x: sequence of nodes (tuples of node labels),          *)
(*    w: sequence of weights, ex: degree (-1 unknown, INF all)].           *)
(* Rules are combined by products and by affine maps of 1-D rules.         *)
(* The invariants say what a composition must preserve; the plan replays   *)
(* every reachable composition against the library.                        *)
(***************************************************************************)
EXTENDS RulePlan, Compose, Json

\* small base rules: <<dim, number of nodes, exactness>>; node labels and weights are
\* small integers so that every composition is exact in floating point
Bases == << <<1, 1, 1>>, <<1, 2, 3>>, <<1, 3, -1>>, <<1, 2, INF>>, <<2, 3, 2>>, <<0, 1, INF>>, <<3, 2, 0>>, <<2, 1, -1>> >>
BaseX(b, i, l) == 2 * (((i * 5) + (l * 3) + b) % 9) - 8       \* in -8..8
BaseW(b, i) == (IF (i + b) % 3 = 0 THEN -1 ELSE 1) * (2 * ((i * (b + 2)) % 5) + 1)
BaseRule(b) == LET B == Bases[b]
               IN  [d |-> B[1], ex |-> B[3],
                    x |-> [i \in 1..B[2] |-> [l \in 1..B[1] |-> BaseX(b, i, l)]],
                    w |-> [i \in 1..B[2] |-> BaseW(b, i)]]
B(b) == <<"b", BaseRule(b)>>

\* a stack machine building compositions
VARIABLES stk, steps
CInit == stk = <<>> /\ steps = 0
Push(b) == stk' = Append(stk, B(b))
Combine(k) == /\ Len(stk) >= k
              /\ stk' = Append(SubSeq(stk, 1, Len(stk) - k), <<"p", SubSeq(stk, Len(stk) - k + 1, Len(stk))>>)
Total == FoldLeft(LAMBDA a, t : a + Len(Leaves(t)), 0, stk)
CNext == /\ steps < (IF Quick THEN 5 ELSE 7) /\ steps' = steps + 1
         /\ \/ \E b \in 1..Len(Bases) : Total < (IF Quick THEN 3 ELSE 4) /\ Push(b)
            \/ \E k \in 0..3 : (k = 0 => Len(stk) < 2) /\ (k = 1 => Len(stk) = 1) /\ Combine(k)
MDepth == 1..Len(stk)
SumSeq(s) == FoldLeft(LAMBDA a, v : a + v, 0, s)
RuleInv(t) ==
    LET r == RuleOf(t)
        flat == ProdRule([k \in 1..Len(Leaves(t)) |-> RuleOf(Leaves(t)[k])])
        ls == [k \in 1..Len(Leaves(t)) |-> RuleOf(Leaves(t)[k])]
    IN  /\ Len(r.x) = Len(r.w)
        /\ \A i \in 1..Len(r.x) : Len(r.x[i]) = r.d
        \* nesting does not matter
        /\ r = flat
        \* the weights sum to the product of the sums (volumes multiply)
        /\ SumSeq(r.w) = FoldLeft(LAMBDA a, q : a * SumSeq(q.w), 1, ls)
        \* the degree: known iff all are, and then no factor promises less
        /\ (r.ex = -1) = (\E k \in 1..Len(ls) : ls[k].ex = -1)
        /\ r.ex # -1 => /\ \A k \in 1..Len(ls) : r.ex <= ls[k].ex
                        /\ (r.ex = INF \/ \E k \in 1..Len(ls) : r.ex = ls[k].ex)
        \* every combination of nodes occurs
        /\ {r.x[i] : i \in 1..Len(r.x)} =
              FoldLeft(LAMBDA S, q : {a \o q.x[i] : a \in S, i \in 1..Len(q.x)}, {<<>>}, ls)
CInv == \A k \in MDepth : RuleInv(stk[k])
\* compositions that nest a two-factor product are replayed as well
P(ts) == <<"p", ts>>
NB == Len(Bases)
Tuples(S, n) == IF n = 1 THEN [i \in 1..NB |-> <<B(i)>>]
                ELSE IF n = 2 THEN Cat2(RG(1, NB), RG(1, NB), LAMBDA a, c : <<B(a), B(c)>>)
                ELSE FlattenSeq([a \in 1..NB |-> Cat2(RG(1, NB), RG(1, NB), LAMBDA c, e : <<B(a), B(c), B(e)>>)])
Comps == <<P(<<>>)>> \o [i \in 1..NB |-> P(<<B(i)>>)]
    \o [i \in 1..(NB * NB) |-> P(Tuples(NB, 2)[i])]
    \o [i \in 1..(NB * NB * NB) |-> P(Tuples(NB, 3)[i])]
    \o Cat2(RG(1, NB), Tuples(NB, 2), LAMBDA a, ts : P(<<B(a), P(ts)>>))
    \o Cat2(RG(1, NB), Tuples(NB, 2), LAMBDA a, ts : P(<<P(ts), B(a)>>))
    \o <<P(<<P(<<B(2), B(5)>>), P(<<B(3), B(2)>>)>>), P(<<P(<<>>), B(2)>>), P(<<P(<<P(<<B(2)>>), B(3)>>), B(1)>>)>>

Unoffered == << J("xg", 2, 0, <<>>), J("xg", 2, 51, <<>>), J("xg", 2, -1, <<>>), J("xg", 3, 0, <<>>), J("xg", 3, 16, <<>>), J("xg", 1, 3, <<>>),
    J("xg", 4, 3, <<>>), J("xg", 0, 1, <<>>), J("vr", 2, 21, <<>>), J("vr", 2, -1, <<>>), J("vr", 3, 11, <<>>), J("vr", 3, 100, <<>>), J("vr", 1, 2, <<>>),
    J("vr", 4, 2, <<>>), J("js", 3, 20, <<>>), J("js", 3, -1, <<>>), J("js", 2, 3, <<>>), J("js", 4, 3, <<>>), J("js", 1, 3, <<>>), J("wv", 2, 2, <<>>), J("wv", 2, 0, <<>>),
    J("wv", 2, 20, <<>>), J("wv", 2, 23, <<>>), J("wv", 3, 13, <<>>), J("wv", 3, 4, <<>>), J("wv", 1, 3, <<>>), J("wv", 4, 3, <<>>), J("wv", 2, -1, <<>>) >>

OneD == <<"jg", "jgs", "lg", "lgs", "cheb", "chebs", "geg", "gegs", "jgl", "lgl", "cc", "fejer">>
\* integrands: salt and the leading shape of the values
Calls == << <<1, <<>> >>, <<2, <<1>> >>, <<3, <<4>> >> >>
CallJobs == << LG(0), LG(1), LG(6), J("cc", 1, 4, <<>>), J("fejer", 1, 5, <<2>>), J("xg", 2, 5, <<>>), J("xg", 3, 4, <<>>), J("vr", 2, 3, <<>>),
    J("gm", 4, 2, <<>>), J("wv", 3, 5, <<>>), J("zero", 0, 0, <<>>), J("lgtp", 2, 2, <<>>), J("tr", 1, 0, <<3, 17, LG(3)>>),
    J("prod", 0, 0, <<J("xg", 2, 2, <<>>), LG(1)>>), J("jgl", 1, 4, <<2, 4, 4>>), J("js", 3, 3, <<>>) >>
Dtypes == <<"float", "complex", "int", "float32">>
Trs == << <<0, 8>>, <<-24, 3>>, <<5, 7>>, <<-800, 1600>>, <<-8, 8>>, <<7, 7>>, <<8, 0>>, <<0, 0>>, <<1000, 1001>>,
           \* with a denominator of their own
           <<1000000, 1000013, 1000>>, <<-5000007, -5000000, 100>>, <<0, 1, 1000000>>, <<0, 100000000, 1>>, <<-3, 4, 1>>, <<2, 2, 1>>, <<1, -7, 1>>,
           <<10000000, 10000123, 10000>>, <<-10000123, -10000000, 10000>>, <<1000000, 1000001, 1000000>>, <<-1, 1, 3>>, <<123456, 123461, 7>> >>
TrBases == << LG(4), J("cc", 1, 6, <<>>), J("fejer", 1, 4, <<1>>), J("lgl", 1, 3, <<>>), J("krong", 1, 3, <<>>), LG(0) >>
R(kind, j, x) == [kind |-> kind, rule |-> j, x |-> x]
Nil == J("zero", 0, 0, <<>>)
Plan == [i \in 1..Len(RulePlan) |-> R("rule", RulePlan[i], <<>>)]
    \o [i \in 1..Len(Comps) |-> R("comp", Nil, Comps[i])]
    \o [i \in 1..Len(Unoffered) |-> R("none", Unoffered[i], <<>>)]
    \o FlattenSeq([k \in 1..Len(CallJobs) |-> Cat2(Calls, Dtypes, LAMBDA c, t : R("call", CallJobs[k], <<c[1], c[2], t>>))])
    \o Cat2(Trs, TrBases, LAMBDA t, b : R("tr", b, t))
    \o <<R("inf", Nil, <<>>)>>
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
