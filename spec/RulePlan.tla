------------------------------ MODULE RulePlan ------------------------------
(* All rules that are constructed and checked.                                *)
EXTENDS Quad, Params
RG(lo, hi) == [i \in 1..(hi - lo + 1) |-> lo + i - 1]
Cat2(A, B, f(_, _)) == FlattenSeq([i \in 1..Len(A) |-> [k \in 1..Len(B) |-> f(A[i], B[k])]])

\* Jacobi parameters, in units of 1/4
JQ == IF Quick THEN <<-3, -2, -1, 0, 1, 2, 4, 6, 8, 12>> ELSE <<-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20>>
JOrd == IF Quick THEN <<0, 1, 2, 3, 5, 8, 13, 24>> ELSE RG(0, 24) \o <<40>>
LOrd == IF Quick THEN RG(0, 25) \o <<31, 32, 33, 40, 47, 50, 64, 65>> ELSE RG(0, 80)
BigOrd == IF Quick THEN <<100, 129>> ELSE <<99, 100, 101, 127, 128, 129, 150, 200, 255, 257>>
JPairs == Cat2(JQ, JQ, LAMBDA x, y : <<x, y, 4>>)
\* more parameters, each with a few orders of its own, so that all orders occur
JPairs2 == << <<40, 2, 4>>, <<-3, 37, 4>>, <<50, 50, 4>>, <<-9, 3, 10>>, <<1, -9, 10>>, <<-9, -9, 10>>, <<1, 2, 3>>, <<-1, -1, 3>>,
              <<80, 0, 4>>, <<0, 80, 4>>, <<-1, -9, 10>>, <<22, 7, 10>>, <<7, 7, 10>>, <<-99, 50, 100>>,
              \* alpha + beta next to -1
              <<-2500000, -7499999, 10000000>>, <<-300000, -700001, 1000000>>, <<-900001, -100000, 1000000>>, <<-6000001, -4000000, 10000000>>,
              <<500000, 500050, 1000000>>, <<100, 0, 1000000>>, <<-500000, -499900, 1000000>>, <<2000000, 2000300, 1000000>> >>
Diag(P, m) == Cat2(P, <<0, 1>>, LAMBDA p, i : <<p, (((IF p[1] < 0 THEN 3 - p[1] ELSE p[1]) * 7 + p[2] * p[2] * 5 + p[1] * p[2] + i * 11) % m)>>)
D33 == Diag(JPairs, 33)
D23 == Diag(JPairs, 23)
D19 == Diag(JPairs, 19)
GegQ == <<-3, -2, -1, 0, 1, 2, 4, 6, 8, 12, 20>>
LG(n) == J("lg", 1, n, <<>>)
ProdPlan == <<
    <<LG(2), LG(5)>>, <<LG(4), J("cc", 1, 3, <<>>)>>, <<J("xg", 2, 4, <<>>), LG(3)>>,
    <<LG(1), J("xg", 2, 6, <<>>)>>, <<J("vr", 2, 3, <<>>), J("lgl", 1, 4, <<>>)>>,
    <<J("cc", 1, 4, <<>>), J("fejer", 1, 5, <<1>>)>>, <<J("zero", 0, 0, <<>>), LG(3)>>,
    <<LG(3), J("zero", 0, 0, <<>>), LG(2)>>, <<J("zero", 0, 0, <<>>), J("zero", 0, 0, <<>>)>>,
    <<J("prod", 2, 0, <<LG(2), LG(3)>>), LG(1)>>, <<J("js", 3, 4, <<>>), LG(2)>>,
    <<J("lgtp", 2, 2, <<>>), J("gm", 2, 1, <<>>)>>, <<J("krong", 1, 2, <<>>), LG(3), LG(6)>>,
    <<J("wv", 2, 5, <<>>), J("cc", 1, 7, <<>>)>>, <<J("xg", 2, 3, <<>>), J("xg", 2, 2, <<>>)>>,
    <<LG(0), LG(1), LG(2), LG(0)>> >>
RulePlan ==
    Cat2(JPairs, JOrd, LAMBDA p, n : J("jg", 1, n, p))
    \o [i \in 1..Len(D33) |-> J(IF i % 2 = 0 THEN "jgs" ELSE "jg", 1, D33[i][2], D33[i][1])]
    \o [i \in 1..Len(D23) |-> J(IF i % 2 = 1 THEN "jgs" ELSE "jg", 1, D23[i][2], D23[i][1])]
    \o [i \in 1..Len(D19) |-> J("jgl", 1, D19[i][2], D19[i][1])]
    \o Cat2(JPairs2, <<0, 1, 2, 3, 4, 6, 9, 17, 20>>, LAMBDA p, n : J("jg", 1, n, p))
    \o Cat2(JPairs2, <<0, 1, 2, 5, 10, 16, 20>>, LAMBDA p, n : J("jgs", 1, n, p))
    \o Cat2(JPairs2, <<1, 2, 3, 4, 7, 11>>, LAMBDA p, n : J("jgl", 1, n, p))
    \o Cat2(<<"jg", "jgs", "jgl">>, Cat2(<< <<50, 40, 1>>, <<100, 60, 1>>, <<160, 0, 1>>, <<0, 175, 1>>, <<80, 80, 1>> >>, <<1, 2, 3, 5, 8>>, LAMBDA p, n : <<p, n>>), LAMBDA f, x : J(f, 1, x[2], x[1]))
    \o Cat2(JPairs, IF Quick THEN <<0, 1, 4, 9>> ELSE JOrd, LAMBDA p, n : J("jgs", 1, n, p))
    \o Cat2(<<"lg", "lgs">>, LOrd, LAMBDA f, n : J(f, 1, n, <<>>))
    \o Cat2(<<"cheb", "chebs">>, Cat2(<<1, 2>>, LOrd, LAMBDA k, n : <<k, n>>), LAMBDA f, x : J(f, 1, x[2], <<x[1]>>))
    \o Cat2(<<"geg", "gegs">>, Cat2(GegQ, JOrd, LAMBDA a, n : <<a, n>>), LAMBDA f, x : J(f, 1, x[2], <<x[1], 4>>))
    \o Cat2(JPairs, IF Quick THEN <<1, 2, 3, 6, 12>> ELSE RG(1, 20), LAMBDA p, n : J("jgl", 1, n, p))
    \o [i \in 1..Len(LOrd) |-> J("lgl", 1, LOrd[i], <<>>)]
    \o Cat2(<<"lg", "lgs", "lgl", "cc">>, BigOrd, LAMBDA f, n : J(f, 1, n, <<>>))
    \o Cat2(<<"fejer", "cheb", "chebs">>, Cat2(<<1, 2>>, BigOrd, LAMBDA k, n : <<k, n>>), LAMBDA f, x : J(f, 1, x[2], <<x[1]>>))
    \o Cat2(<<"jg", "jgs">>, Cat2(<< <<2, 2, 4>>, <<-1, 4, 4>>, <<-2, -2, 4>> >>, BigOrd, LAMBDA p, n : <<p, n>>), LAMBDA f, x : J(f, 1, x[2], x[1]))
    \o [i \in 1..Len(LOrd) |-> J("cc", 1, LOrd[i], <<>>)]
    \o Cat2(<<1, 2>>, LOrd, LAMBDA k, n : J("fejer", 1, n, <<k>>))
    \o Cat2(<<"kron", "krong">>, IF Quick THEN RG(1, 30) ELSE RG(1, 60), LAMBDA f, n : J(f, 1, n, <<>>))
    \o [i \in 1..50 |-> J("xg", 2, i, <<>>)] \o [i \in 1..15 |-> J("xg", 3, i, <<>>)]
    \o [i \in 1..21 |-> J("vr", 2, i - 1, <<>>)] \o [i \in 1..11 |-> J("vr", 3, i - 1, <<>>)]
    \o [i \in 1..20 |-> J("js", 3, i - 1, <<>>)]
    \o [i \in 1..11 |-> J("wv", 2, 2 * i - 1, <<>>)] \o [i \in 1..6 |-> J("wv", 3, 2 * i - 1, <<>>)]
    \o FlattenSeq([d \in 1..6 |->
            [s \in 1..((IF Quick THEN <<14, 11, 9, 6, 5, 4>> ELSE <<21, 16, 11, 8, 6, 5>>)[d]) |-> J("gm", d, s - 1, <<>>)]])
    \o <<J("zero", 0, 0, <<>>), J("gm", 0, 2, <<>>)>>
    \o Cat2(<<"lgtp", "lgltp">>, Cat2(<<1, 2, 3>>, <<1, 2, 3, 4, 5>>, LAMBDA d, n : <<d, n>>), LAMBDA f, x : J(f, x[1], x[2], <<>>))
    \o Cat2(<<"lgtp", "lgltp">>, << <<1, 6>>, <<1, 7>>, <<1, 9>>, <<1, 12>>, <<1, 20>>, <<2, 6>>, <<2, 7>>, <<2, 9>>, <<4, 2>>, <<0, 3>> >>,
            LAMBDA f, x : J(f, x[1], x[2], <<>>))
    \o [i \in 1..Len(ProdPlan) |-> J("prod", 0, 0, ProdPlan[i])]
    \o Cat2(<< <<0, 8>>, <<-24, 3>>, <<5, 7>>, <<-800, 1600>> >>,
            <<LG(4), J("cc", 1, 6, <<>>), J("lgl", 1, 5, <<>>), J("krong", 1, 3, <<>>)>>,
            LAMBDA I, b : J("tr", 1, 0, <<I[1], I[2], b>>))
=============================================================================
