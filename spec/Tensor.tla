------------------------------- MODULE Tensor -------------------------------
(* Positions of degrees of freedom of a product space: the multi-index of   *)
(* factor indices (from 0), the first factor running fastest.               *)
EXTENDS Elem
Sizes(fs) == [k \in 1..Len(fs) |-> SpaceDim(<<fs[k]>>)]
Prod(s) == FoldLeft(LAMBDA a, v : a * v, 1, s)
\* position of the multi-index m
RECURSIVE Lin(_, _)
Lin(s, m) == IF s = <<>> THEN 0 ELSE Head(m) + (Head(s) * Lin(Tail(s), Tail(m)))
\* multi-index at position c
RECURSIVE Unlin(_, _)
Unlin(s, c) == IF s = <<>> THEN <<>> ELSE <<c % Head(s)>> \o Unlin(Tail(s), c \div Head(s))
\* row-major (C) position in an array of shape s, and back
RECURSIVE CPos(_, _)
CPos(s, m) == IF s = <<>> THEN 0 ELSE (Head(m) * Prod(Tail(s))) + CPos(Tail(s), Tail(m))
RECURSIVE CIdx(_, _)
CIdx(s, c) == IF s = <<>> THEN <<>> ELSE <<c \div Prod(Tail(s))>> \o CIdx(Tail(s), c % Prod(Tail(s)))
\* node tuple / mode index of a position
TupleAt(fs, m) == FlattenSeq([k \in 1..Len(fs) |-> IdxList(fs[k][1], fs[k][2])[m[k] + 1]])
=============================================================================
