-------------------------------- MODULE C14MC --------------------------------
(***************************************************************************)
(* The degrees of freedom of a product space as an odometer: stepping      *)
(* through the listing advances the multi-index, first factor fastest.     *)
(***************************************************************************)
EXTENDS BasisPlan, Tensor
VARIABLES te, tm, tc
TEls == Filter(ProdEls \o <<ET(<< <<0, 2>>, Seg(3) >>), ET(<<Seg(2), <<0, 1>> >>), ET(<< <<0, 1>>, <<2, 2>> >>), EQ(1, 4), EQ(0, 3), EQ(2, 0), EQ(6, 1), ET(<<Seg(1), <<4, 1>> >>),
                             ET(<<Seg(0), Seg(0), Seg(2)>>), ET(<<Seg(2), Seg(0), Seg(3)>>)>>, LAMBDA el : TRUE)
IsTP(el) == Len(el.fs) # 1
TPEls == Filter(TEls, IsTP)
TInit == te \in 1..Len(TPEls) /\ tc = 0 /\ tm = [k \in DOMAIN TPEls[te].fs |-> 0]
\* the odometer: the first digit that can advance does, those before it return to 0
Adv(s, m, m2) == \E k \in DOMAIN s : /\ m[k] + 1 < s[k] /\ \A j \in 1..(k - 1) : m[j] + 1 = s[j]
                                     /\ m2 = [j \in DOMAIN s |-> IF j < k THEN 0 ELSE IF j = k THEN m[j] + 1 ELSE m[j]]
TNext == LET s == Sizes(TPEls[te].fs)
         IN  /\ \E k \in DOMAIN s : /\ tm[k] + 1 < s[k] /\ \A j \in 1..(k - 1) : tm[j] + 1 = s[j]
                                    /\ tm' = [j \in DOMAIN s |-> IF j < k THEN 0 ELSE IF j = k THEN tm[j] + 1 ELSE tm[j]]
             /\ tc' = tc + 1 /\ te' = te
TInv == LET fs == TPEls[te].fs
            s == Sizes(fs)
        IN  /\ Lin(s, tm) = tc /\ Unlin(s, tc) = tm /\ tc < Prod(s)
            /\ TupleAt(fs, tm) = TPIdx(fs)[tc + 1]
            /\ CIdx(s, CPos(s, tm)) = tm
            /\ (tc = Prod(s) - 1) <=> (\A k \in DOMAIN s : tm[k] = s[k] - 1)
TIdle == te = 0 /\ tm = <<>> /\ tc = 0
NInit == \/ BInit /\ TIdle
         \/ TInit /\ OrthoIdle /\ me = 0 /\ mv = "ok"
NNext == \/ BNext /\ UNCHANGED <<te, tm, tc>>
         \/ te > 0 /\ TNext /\ UNCHANGED <<vars, me, mv>>
NInv == BInv /\ (te > 0 => TInv)

\* surrounding axes: <<before, after>>
Around == << << <<>>, <<>> >>, << <<3>>, <<>> >>, << <<>>, <<4>> >>, << <<2>>, <<3>> >>, << <<2, 3>>, <<>> >>, << <<>>, <<2, 2>> >>,
             << <<2>>, <<3, 2>> >>, << <<1>>, <<1>> >>, << <<0>>, <<2>> >>, << <<2, 1, 2>>, <<1, 3>> >> >>
Mem == <<"C", "F", "strided", "reversed", "transposed", "readonly">>
Types == <<"float64", "int32", "complex128", "object", "bool", "float32", "wrap", "bigint", "longdouble">>
Job(fam, el, ar, neg, mem, ty) == [fam |-> fam, el |-> el, before |-> ar[1], after |-> ar[2], neg |-> neg, mem |-> mem, type |-> ty]
Std == << <<>>, <<>> >>
Plan == Cat2(TEls, Around, LAMBDA el, a : Job("tag", el, a, FALSE, "C", "float64"))
     \o Cat2(TEls, Around, LAMBDA el, a : Job("tag", el, a, TRUE, "F", "float64"))
     \o FlattenSeq([i \in 1..Len(TEls) |-> Cat2(Mem, Types, LAMBDA m, t : Job("tag", TEls[i], Around[((i + Len(m)) % Len(Around)) + 1], (i % 2) = 0, m, t))])
     \o LET E == Filter(TEls, LAMBDA el : Cardinality({k \in DOMAIN el.fs : el.fs[k][1] # 1}) <= 1)   \* those with a shape
        IN [i \in 1..Len(E) |-> Job("tuples", E[i], Std, TRUE, "C", "")]
     \o Cat2(TPEls, <<"short", "long", "axis+", "axis-", "axismid", "scalar", "unshort", "unperm", "unaxis+", "unaxis-", "unflat">>, LAMBDA el, t : Job("err", el, Around[4], FALSE, "C", t))
     \o (IF Quick THEN <<>> ELSE FlattenSeq([i \in 1..Len(TEls) |-> FlattenSeq([a \in 1..Len(Around) |->
            Cat2(Mem, <<TRUE, FALSE>>, LAMBDA m, n : Job("tag", TEls[i], Around[a], n, m, Types[((i + a) % Len(Types)) + 1]))])]))
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
