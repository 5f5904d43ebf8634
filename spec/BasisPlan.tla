----------------------------- MODULE BasisPlan -----------------------------
(* Elements on which bases are checked, and the model of their indices.      *)
EXTENDS OrthoMC, Elem, Json

Seg(n) == <<1, n>>
ProdEls ==
    [n \in 1..6 |-> EQ(2, n - 1)] \o [n \in 1..4 |-> EQ(3, n - 1)] \o <<EQ(4, 1), EQ(4, 2), EQ(5, 1)>>
    \o << ET(<<Seg(2), Seg(4)>>), ET(<<Seg(5), Seg(1)>>), ET(<<Seg(3), Seg(3)>>), ET(<<Seg(0), Seg(3)>>),
          ET(<< <<2, 3>>, Seg(2) >>), ET(<<Seg(2), <<2, 3>> >>), ET(<<Seg(1), <<2, 2>>, Seg(3)>>),
          ET(<< <<2, 2>>, Seg(2) >>), ET(<< <<2, 0>>, Seg(2) >>), ET(<<Seg(0), <<2, 4>> >>),
          ET(<< <<3, 2>>, Seg(1) >>), ET(<<Seg(1), <<3, 2>> >>), ET(<<Seg(2), <<3, 1>>, Seg(1)>>),
          ET(<<Seg(1), Seg(3), Seg(2)>>), ET(<<Seg(4), Seg(2), Seg(1)>>), ET(<<Seg(2), Seg(1), Seg(3), Seg(1)>>),
          ET(<< <<2, 3>>, Seg(1), Seg(2) >>), ET(<<Seg(1), Seg(2), <<2, 3>> >>),
          EN(<<Seg(2), Seg(3), Seg(1)>>), EN(<< <<2, 2>>, Seg(1), Seg(2) >>), EN(<<Seg(2), <<2, 1>>, Seg(3)>>),
          EN(<<Seg(3), Seg(2)>>) >>
    \o (IF Quick THEN <<>> ELSE
        << EQ(2, 8), EQ(2, 12), EQ(3, 5), EQ(4, 3), EQ(5, 2), ET(<<Seg(12), Seg(9)>>), ET(<< <<2, 7>>, Seg(5) >>),
           ET(<<Seg(6), <<2, 6>> >>), ET(<< <<3, 4>>, Seg(3) >>), ET(<<Seg(4), <<3, 3>> >>),
           ET(<<Seg(2), <<3, 3>>, Seg(2)>>), ET(<<Seg(5), Seg(6), Seg(4)>>), EN(<<Seg(4), <<2, 4>>, Seg(3)>>) >>)
ZeroEls == <<EP(0, 0), EP(0, 1), EP(0, 3), ET(<< <<0, 2>>, Seg(3) >>), ET(<<Seg(2), <<0, 1>> >>)>>
\* composed by the user: any mixture of bases, his own included
O_ == "onb"
M_ == "mono"
U_ == "user"
CompEls ==
    << EC("C", <<Seg(2), Seg(3)>>, <<O_, M_>>), EC("C", <<Seg(3), Seg(1)>>, <<M_, O_>>), EC("C", <<Seg(2), Seg(4)>>, <<U_, O_>>),
       EC("C", <<Seg(4), Seg(2)>>, <<O_, U_>>), EC("C", <<Seg(1), Seg(3), Seg(2)>>, <<M_, U_, O_>>), EC("C", <<Seg(3)>>, <<O_>>), EC("C", <<Seg(4)>>, <<U_>>),
       EC("C", << <<2, 3>>, Seg(2) >>, <<M_, O_>>), EC("C", <<Seg(2), <<2, 3>> >>, <<O_, M_>>), EC("C", << <<2, 2>>, <<2, 1>> >>, <<O_, O_>>),
       EC("C", << <<2, 1>>, <<2, 2>> >>, <<M_, O_>>), EC("C", << <<3, 1>>, <<2, 2>> >>, <<O_, M_>>), EC("C", << <<2, 1>>, <<3, 2>> >>, <<U_, O_>>),
       EC("C", << <<2, 2>>, Seg(1), <<2, 1>> >>, <<O_, M_, O_>>), EC("C", << <<2, 2>> >>, <<O_>>), EC("C", <<Seg(2), <<2, 2>>, <<2, 1>> >>, <<U_, M_, O_>>),
       EC("C", << <<4, 1>>, <<2, 2>> >>, <<M_, O_>>), EC("C", <<Seg(1), Seg(1), Seg(2), Seg(1), Seg(1)>>, <<O_, M_, U_, O_, M_>>),
       EC("M", <<Seg(2), Seg(3), Seg(1)>>, <<O_, M_, O_>>), EC("M", <<Seg(1), Seg(2), Seg(2)>>, <<O_, O_, O_>>), EC("M", << <<2, 2>>, Seg(1), Seg(3)>>, <<O_, U_, O_>>),
       EC("M", <<Seg(2), <<2, 2>>, Seg(1)>>, <<M_, O_, O_>>), EC("M", << <<2, 1>>, <<2, 2>>, <<2, 1>> >>, <<O_, M_, O_>>), EC("M", <<Seg(1), Seg(2), Seg(1), Seg(2)>>, <<U_, O_, O_, M_>>) >>
SimplexEls ==
    [n \in 1..(IF Quick THEN 14 ELSE 31) |-> EP(1, n - 1)] \o <<EP(1, 40), EP(1, 60)>>
    \o [n \in 1..(IF Quick THEN 11 ELSE 17) |-> EP(2, n - 1)]
    \o [n \in 1..(IF Quick THEN 7 ELSE 11) |-> EP(3, n - 1)]
BigEls == <<EP(1, 120), EP(1, 180), EP(2, 19), EP(3, 10)>> \o (IF Quick THEN <<>> ELSE <<EP(1, 250), EP(2, 24), EP(3, 13), EQ(2, 15)>>)
HighEls == << EP(4, 0), EP(4, 1), EP(4, 2), EP(4, 4), EP(5, 2), EP(6, 1), EP(6, 2),
              ET(<< <<4, 2>>, Seg(2) >>), ET(<<Seg(1), <<4, 2>> >>)>>
OnbEls == ZeroEls \o SimplexEls \o ProdEls
MonoEls == SimplexEls \o ProdEls \o HighEls \o (IF Quick THEN <<>> ELSE <<EP(4, 6), EP(5, 4)>>)
AllEls == OnbEls \o HighEls \o CompEls

(* ---- the indices of an element, as a model ------------------------------ *)
VARIABLES me, mv
NIdx(el) == TPIdx(el.fs)
IndexOK(el) ==
    LET L == NIdx(el)
        Ids == {L[i] : i \in 1..Len(L)}
        deg(x, k) == IdxSum(TPSub(el.fs, k, x))
    IN  /\ Len(L) = SpaceDim(el.fs) /\ Cardinality(Ids) = Len(L)
        \* exactly the exponents the factors allow
        /\ \A x \in Ids : Len(x) = TPDim(el.fs) /\ \A k \in 1..Len(el.fs) : deg(x, k) <= el.fs[k][2]
        \* graded: with an index all smaller ones
        /\ \A x \in Ids : \A l \in 1..Len(x) : x[l] > 0 => [x EXCEPT ![l] = @ - 1] \in Ids
        \* the first component runs fastest: reversed indices are in lexicographic order
        /\ \A i \in 1..(Len(L) - 1) :
              \E l \in 1..Len(L[i]) : /\ L[i][l] < L[i + 1][l]
                                      /\ \A m \in (l + 1)..Len(L[i]) : L[i][m] = L[i + 1][m]
        \* the identifiers are distinct
        /\ Cardinality({IdStr(el, L[i]) : i \in 1..Len(L)}) = Len(L)
OrthoIdle == od = 0 /\ oi = <<>> /\ oj = <<>> /\ ov = "ok"
BInit == \/ Init /\ me = 0 /\ mv = "ok"
         \/ OrthoIdle /\ me \in 1..Len(AllEls) /\ mv = "todo"
BNext == \/ Next /\ UNCHANGED <<me, mv>>
         \/ mv = "todo" /\ mv' = (IF IndexOK(AllEls[me]) THEN "ok" ELSE "bad") /\ UNCHANGED <<vars, me>>
BSpec == BInit /\ [][BNext]_<<vars, me, mv>>
BInv == Inv /\ mv # "bad"
Small(el) == SpaceDim(el.fs) <= 60
=============================================================================
