------------------------------ MODULE Compose ------------------------------
(***************************************************************************)
(* Composition of quadrature rules.  A rule is                             *)
(*   [d: dimension, x: sequence of nodes (tuples of numbers),              *)
(*    w: sequence of weights, ex: degree (-1 unknown, INF all)].           *)
(***************************************************************************)
EXTENDS Quad
ExMin(a, c) == IF a = -1 \/ c = -1 THEN -1 ELSE Min2(a, c)
\* node i of the product (counting from 0): the first factor runs fastest
ProdRule(rs) ==
    LET cnt == [k \in 1..Len(rs) |-> Len(rs[k].x)]
        stride(k) == FoldLeft(LAMBDA a, v : a * v, 1, SubSeq(cnt, 1, k - 1))
        n == FoldLeft(LAMBDA a, v : a * v, 1, cnt)
        at(i, k) == (((i - 1) \div stride(k)) % cnt[k]) + 1
    IN  [d |-> FoldLeft(LAMBDA a, r : a + r.d, 0, rs),
         ex |-> FoldLeft(LAMBDA a, r : ExMin(a, r.ex), INF, rs),
         x |-> [i \in 1..n |-> FlattenSeq([k \in 1..Len(rs) |-> rs[k].x[at(i, k)]])],
         w |-> [i \in 1..n |-> FoldLeft(LAMBDA a, k : a * rs[k].w[at(i, k)], 1, [k \in 1..Len(rs) |-> k])]]
\* expressions: <<"b", rule>> or <<"p", expressions>>
RECURSIVE RuleOf(_)
RuleOf(t) == IF t[1] = "b" THEN t[2]
             ELSE ProdRule([k \in 1..Len(t[2]) |-> RuleOf(t[2][k])])
RECURSIVE Leaves(_)
Leaves(t) == IF t[1] = "b" THEN <<t>> ELSE FlattenSeq([k \in 1..Len(t[2]) |-> Leaves(t[2][k])])
=============================================================================
