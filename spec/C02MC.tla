-------------------------------- MODULE C02MC --------------------------------
(* Plan: quadrature_for_space for all supported pairs of spaces and shapes.   *)
EXTENDS BasisPlan

Grid2(A, B, f(_, _)) == Cat2(A, B, f)
O(n) == RG(0, n)
Seg3 == FlattenSeq([a \in 1..4 |-> Grid2(O(3), O(3), LAMBDA b, c : ET(<<Seg(a - 1), Seg(b), Seg(c)>>))])
QEls ==
    [n \in 1..4 |-> EP(0, n - 1)] \o [n \in 1..(IF Quick THEN 41 ELSE 81) |-> EP(1, n - 1)]
    \o (IF Quick THEN [n \in 1..18 |-> EP(2, n - 1)] \o <<EP(2, 24), EP(2, 30), EP(2, 49), EP(2, 50), EP(2, 51)>> ELSE [n \in 1..61 |-> EP(2, n - 1)]) \o [n \in 1..(IF Quick THEN 18 ELSE 25) |-> EP(3, n - 1)]
    \o [n \in 1..(IF Quick THEN 7 ELSE 15) |-> EP(4, n - 1)] \o [n \in 1..(IF Quick THEN 5 ELSE 11) |-> EP(5, n - 1)]
    \o [n \in 1..(IF Quick THEN 4 ELSE 8) |-> EP(6, n - 1)] \o (IF Quick THEN <<EP(4, 8), EP(4, 11), EP(5, 9), EP(6, 6)>> ELSE <<>>)
    \o Grid2(O(6), O(6), LAMBDA a, b : ET(<<Seg(a), Seg(b)>>))
    \o Seg3
    \o Grid2(O(5), O(4), LAMBDA a, b : ET(<< <<2, a>>, Seg(b)>>))
    \o Grid2(O(4), O(5), LAMBDA a, b : ET(<<Seg(a), <<2, b>> >>))
    \o Grid2(O(3), O(3), LAMBDA a, b : ET(<< <<3, a>>, Seg(b)>>))
    \o Grid2(O(3), O(3), LAMBDA a, b : ET(<<Seg(a), <<3, b>> >>))
    \o Grid2(O(2), O(2), LAMBDA a, b : ET(<<Seg(a), <<2, 3>>, Seg(b)>>))
    \o Grid2(O(2), O(2), LAMBDA a, b : EN(<<Seg(a), Seg(3), <<2, b>> >>))
    \o Grid2(O(3), O(3), LAMBDA a, b : EN(<< <<2, 2>>, Seg(a), Seg(b)>>))
    \o Grid2(O(2), O(2), LAMBDA a, b : ET(<<Seg(a), Seg(b), Seg(3), Seg(1)>>))
    \o << ET(<< <<4, 2>>, Seg(3) >>), ET(<<Seg(1), <<4, 3>> >>), ET(<<Seg(9), Seg(2)>>), ET(<<Seg(2), Seg(20)>>),
          ET(<< <<2, 12>>, Seg(3) >>), ET(<<Seg(3), <<2, 9>> >>), ET(<< <<3, 6>>, Seg(2) >>), ET(<< <<2, 22>>, Seg(1) >>),
          ET(<<Seg(1), <<3, 16>> >>), ET(<< <<0, 3>>, Seg(2) >>), ET(<<Seg(5), <<0, 1>> >>),
          ET(<<>>), EQ(0, 1), EN(<<Seg(2), <<3, 2>>, Seg(1)>>) >>
    \o [n \in 1..9 |-> EQ(2, n - 1)] \o [n \in 1..6 |-> EQ(3, n - 1)] \o [n \in 1..3 |-> EQ(4, n - 1)] \o <<EQ(5, 1)>>
    \o (IF Quick THEN <<>> ELSE
        [n \in 1..20 |-> EQ(2, n + 8)] \o [n \in 1..5 |-> EQ(3, n + 5)] \o [n \in 1..2 |-> EQ(4, n + 2)] \o <<EQ(5, 2), EQ(6, 1)>>
        \o Grid2(O(12), O(8), LAMBDA a, b : ET(<< <<2, a>>, Seg(b)>>))
        \o Grid2(O(12), O(12), LAMBDA a, b : ET(<<Seg(a), Seg(b)>>))
        \o Grid2(O(6), O(5), LAMBDA a, b : ET(<< Seg(b), <<3, a>> >>)))
Plan == [i \in 1..Len(QEls) |-> [el |-> QEls[i]]]
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
