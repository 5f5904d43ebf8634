-------------------------------- MODULE C12MC --------------------------------
(***************************************************************************)
(* Nodal calculus: polynomials represented by their values at node sets;   *)
(* resampling moves to another node set, differentiation acts along an     *)
(* axis (and may move at the same time).  The model computes with exact    *)
(* polynomials; its behaviours are replayed with the library's matrices.   *)
(***************************************************************************)
EXTENDS BasisPlan
VARIABLES ce, cp, ch, cs

CalcEls == << EP(1, 3), EP(2, 3), EP(3, 2), EQ(2, 2), ET(<<Seg(2), Seg(1)>>), ET(<< <<2, 2>>, Seg(1) >>), ET(<<Seg(2), <<2, 1>> >>) >>
\* a polynomial of the space with distinct coefficients
Start(el) == LET L == TPIdx(el.fs)
             IN  [t \in {L[i] : i \in 1..Len(L)} |->
                    LET i == CHOOSE i \in 1..Len(L) : L[i] = t IN QFrac(IF i % 2 = 0 THEN i ELSE -(i + 1), 1 + (i % 3))]
Sets == <<"A", "B", "O">>        \* two unisolvent sets and one with more nodes
\* from O one can only resample (least squares), as differentiation needs unisolvence
Ops(el, s) == (IF s = "O" THEN <<>> ELSE Cat2([l \in 1..TPDim(el.fs) |-> l], <<"A", "B", "O">>, LAMBDA l, t : <<l, t>>))
              \o [k \in 1..3 |-> <<0, Sets[k]>>]
Apply(p, op) == IF op[1] = 0 THEN p ELSE PlDiff(p, op[1])
HLen == IF Quick THEN 2 ELSE 3
CInit == ce \in 1..Len(CalcEls) /\ cp = Start(CalcEls[ce]) /\ ch = <<>> /\ cs \in {"A", "B", "O"}
CNext == /\ Len(ch) < HLen /\ ce' = ce
         /\ \E k \in 1..Len(Ops(CalcEls[ce], cs)) :
                LET op == Ops(CalcEls[ce], cs)[k]
                IN  cp' = Apply(cp, op) /\ ch' = Append(ch, op) /\ cs' = op[2]
Diffs(h) == Filter(h, LAMBDA op : op[1] > 0)
CInv == LET el == CalcEls[ce]
            L == TPIdx(el.fs)
            d == TPDim(el.fs)
        IN  /\ DOMAIN cp \subseteq {L[i] : i \in 1..Len(L)}       \* closed under differentiation
            /\ PlDeg(cp) <= PlDeg(Start(el)) - Len(Diffs(ch))
            /\ \A l \in 1..d : \A m \in 1..d : PlDiff(PlDiff(cp, l), m) = PlDiff(PlDiff(cp, m), l)
            \* differentiation along axis l is that along axis 1 with the axes exchanged
            /\ \A l \in 1..d :
                  LET sw(p) == [f \in {[e EXCEPT ![1] = e[l], ![l] = e[1]] : e \in DOMAIN p} |-> p[[f EXCEPT ![1] = f[l], ![l] = f[1]]]]
                  IN  sw(PlDiff(sw(cp), 1)) = PlDiff(cp, l)
CIdle == ce = 0 /\ cp = <<>> /\ ch = <<>> /\ cs = ""
NInit == \/ BInit /\ CIdle
         \/ CInit /\ OrthoIdle /\ me = 0 /\ mv = "ok"
NNext == \/ BNext /\ UNCHANGED <<ce, cp, ch, cs>>
         \/ ce > 0 /\ CNext /\ UNCHANGED <<vars, me, mv>>
NInv == BInv /\ (ce > 0 => CInv)

\* behaviours for the replay
RECURSIVE Hists(_, _, _)
Hists(el, s, n) ==
    IF n = 0 THEN << <<>> >>
    ELSE LET O == Ops(el, s)
         IN  FlattenSeq(Force([k \in 1..Len(O) |->
                LET R == Hists(el, O[k][2], n - 1) IN [i \in 1..Len(R) |-> <<O[k]>> \o R[i]]]))
Pick(L, n) == IF Len(L) <= n THEN L ELSE [i \in 1..n |-> L[((HH(i, 29) % Len(L)) + 1)]]
CoefStr(el) == LET L == TPIdx(el.fs) IN [i \in 1..Len(L) |-> <<IF i % 2 = 0 THEN i ELSE -(i + 1), 1 + (i % 3)>>]
HistJobs == FlattenSeq([i \in 1..Len(CalcEls) |->
    Cat2(<<"A", "B", "O">>, RG(1, HLen), LAMBDA s, n :
        LET H == Pick(Hists(CalcEls[i], s, n), IF Quick THEN 24 ELSE 60)
        IN  [fam |-> "hist", el |-> CalcEls[i], kind |-> IF n = 1 THEN "mono" ELSE "onb", from |-> s, to |-> "",
             coefs |-> CoefStr(CalcEls[i]), hists |-> H, scl |-> <<>>])])
MJob(f, el, k, s, t) == [fam |-> f, el |-> el, kind |-> k, from |-> s, to |-> t, coefs |-> <<>>, hists |-> <<>>, scl |-> <<>>]
MatEls == Filter(OnbEls, LAMBDA el : (\A k \in DOMAIN el.fs : el.fs[k][1] > 0) /\ TPDim(el.fs) > 0 /\ SpaceDim(el.fs) <= (IF Quick THEN 45 ELSE 84)
                    /\ \A k \in DOMAIN el.fs : el.fs[k][2] <= (IF Quick THEN 12 ELSE 16))
MatMono == Filter(MatEls, LAMBDA el : \A k \in DOMAIN el.fs : el.fs[k][2] <= 6)
LSEls == Filter(MatEls, LAMBDA el : SpaceDim(el.fs) <= (IF Quick THEN 30 ELSE 60))
SymEls == Filter(MatEls, LAMBDA el : Len(el.fs) = 1 \/ \E i \in 2..Len(el.fs) : el.fs[i] = el.fs[1] \/ el.fs[1][1] > 1)
\* the operators do not depend on the sizes of the basis functions: factors 2^-24 .. 2^20
Scl(n, p) == [k \in 1..n |-> CASE p = 1 -> -((7 * k) % 25) [] p = 2 -> (5 * k) % 21 [] p = 3 -> IF k = n THEN -23 ELSE 0 [] OTHER -> -24]
SclEls == Filter(LSEls, LAMBDA el : \A k \in DOMAIN el.fs : el.fs[k][2] <= 4)
SclJobs == FlattenSeq(Cat2(SclEls, RG(1, 4), LAMBDA el, p : [i \in 1..4 |->
     [MJob("mat", el, IF p = 3 THEN "mono" ELSE "onb", <<"A", "O", "B", "O">>[i], <<"B", "A", "A", "O">>[i]) EXCEPT !.scl = Scl(SpaceDim(el.fs), p)]]))
ErrEls == << EP(1, 2), EP(2, 2), EQ(2, 1), ET(<< <<2, 1>>, Seg(1) >>), EP(3, 1) >>
Plan == Cat2(MatEls, << <<"A", "B">>, <<"B", "A">> >>, LAMBDA el, s : MJob("mat", el, "onb", s[1], s[2]))
     \o [i \in 1..Len(MatMono) |-> MJob("mat", MatMono[i], "mono", "A", "B")]
     \o Cat2(LSEls, << <<"O", "A">>, <<"U", "A">>, <<"A", "O">>, <<"A", "A">>, <<"O", "O">>, <<"U", "U">> >>, LAMBDA el, s : MJob("mat", el, "onb", s[1], s[2]))
     \o Cat2(Filter(LSEls, LAMBDA el : \A k \in DOMAIN el.fs : el.fs[k][2] <= 4), << <<"O", "A">>, <<"U", "A">> >>, LAMBDA el, s : MJob("mat", el, "mono", s[1], s[2]))
     \o Cat2(SymEls, <<"A", "B">>, LAMBDA el, s : MJob("perm", el, "onb", s, s))
     \o Cat2(ErrEls, <<"R", "D", "multi0", "van0", "permbad", "mixed", "mixedgrad">>, LAMBDA el, s : MJob("err", el, "onb", "O", s))
     \o Cat2(Filter(LSEls, LAMBDA el : \A k \in DOMAIN el.fs : el.fs[k][2] = 1), << <<"I", "A">>, <<"A", "I">>, <<"I", "I">>, <<"O", "I">> >>, LAMBDA el, s : MJob("mat", el, "onb", s[1], s[2]))
     \o Cat2(Filter(LSEls, LAMBDA el : \A k \in DOMAIN el.fs : el.fs[k][2] <= 4), << <<"F", "S">>, <<"S", "F">>, <<"O", "S">>, <<"A", "N">>, <<"O", "N">>, <<"B", "E">>, <<"O", "E">>, <<"A", "I">> >>, LAMBDA el, s : MJob("mat", el, "onb", s[1], s[2]))
     \o Cat2(Filter(LSEls, LAMBDA el : \A k \in DOMAIN el.fs : el.fs[k][2] <= 5), << <<"A", "T">>, <<"O", "T">> >>, LAMBDA el, s : MJob("mat", el, "onb", s[1], s[2]))
     \o SclJobs \o HistJobs
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
