-------------------------------- MODULE C16MC --------------------------------
(***************************************************************************)
(* The adaptive machine with arbitrary error estimates: whatever they are,  *)
(* the segments remain a chain from the first to the last limit, a segment  *)
(* is only bisected while no tolerance is met and budget is left, and the   *)
(* machine stops after at most one step past the budget.                    *)
(***************************************************************************)
EXTENDS Adapt, Json
VARIABLES segs, evals, conf, st
Le(a, b) == a <= b
Errs == 0..2
Cost == 3                                   \* (order 1)
Chains == { <<0, 64>>, <<64, 0>>, <<0, 16, 64>>, <<64, 48, 0>>, <<0, 64, 32>> }
SumE(S) == FoldLeft(LAMBDA t, s : t + s.E, 0, S)
SumI(S) == FoldLeft(LAMBDA t, s : t + (s.b - s.a), 0, S)
Seg(a, b, E) == [a |-> a, b |-> b, E |-> E]
NInit == \E ch \in Chains, A \in 0..3, R \in {0, 1, 4}, mx \in {0, 3, 10, 21} :
            /\ conf = [ch |-> ch, A |-> A, R |-> R, mx |-> mx]
            /\ segs \in {[i \in 1..(Len(ch) - 1) |-> Seg(ch[i], ch[i + 1], er[i])] : er \in [1..(Len(ch) - 1) -> Errs]}
            /\ evals = Cost * (Len(ch) - 1) /\ st = "run"
Stops == MeetsTol(SumE(segs), conf.A, (conf.R * Abs(SumI(segs))) \div 64, Le) \/ evals >= conf.mx
NNext == /\ st = "run"
         /\ IF Stops THEN st' = "done" /\ UNCHANGED <<segs, evals, conf>>
            ELSE \E k \in DOMAIN segs, x \in Errs, y \in Errs :
                   /\ Largest([i \in DOMAIN segs |-> segs[i].E], k, Le)
                   /\ LET m == (segs[k].a + segs[k].b) \div 2
                      IN  segs' = Bisect(segs, k, Seg(segs[k].a, m, x), Seg(m, segs[k].b, y))
                   /\ evals' = evals + (2 * Cost)
                   /\ UNCHANGED <<conf, st>>
Chain == /\ segs[1].a = conf.ch[1] /\ segs[Len(segs)].b = conf.ch[Len(conf.ch)]
         /\ \A i \in 1..(Len(segs) - 1) : segs[i].b = segs[i + 1].a
NInv == /\ Chain
        /\ evals = Cost * ((2 * Len(segs)) - (Len(conf.ch) - 1))
        /\ evals < Max2(conf.mx, (Cost * (Len(conf.ch) - 1)) + 1) + (2 * Cost)
        /\ SumI(segs) = conf.ch[Len(conf.ch)] - conf.ch[1]
        /\ st = "done" => (SumE(segs) <= conf.A \/ 64 * SumE(segs) <= conf.R * Abs(SumI(segs)) + 63 \/ evals >= conf.mx)

NVars == <<segs, evals, conf, st>>
NSpec == NInit /\ [][NNext]_NVars /\ WF_NVars(NNext)
\* every run ends, whatever the estimates are, and the budget is what is given
Terminates == <>(st = "done")
Progress == [][IF st' = "done" THEN evals' = evals ELSE evals' = evals + (2 * Cost) /\ Len(segs') = Len(segs) + 1]_NVars

(* ---- runs to record ---------------------------------------------------------- *)
\* limits: <<numerator, halvings>>, or <<sign, -1>> for an infinite one
PInf == <<1, -1>>
MInf == <<-1, -1>>
L(n, k) == <<n, k>>
\* f: name, c: parameter (num/16);  tolerances in 2^-k, -1 for 0, 0 for the default;
\* mx: budget, 0 for the default;  typ: type of the limits
Job(f, c, P, n, at, rt, mx, typ) == [fam |-> "run", f |-> f, c |-> c, pts |-> P, n |-> n, at |-> at, rt |-> rt, mx |-> mx, typ |-> typ]
Fin == << <<L(0, 0), L(1, 0)>>, <<L(1, 0), L(0, 0)>>, <<L(-1, 0), L(1, 0)>>, <<L(5, 1), L(-3, 2)>>, <<L(-1, 0), L(0, 0), L(1, 0)>>,
          <<L(0, 0), L(1, 2), L(3, 1), L(2, 0)>>, <<L(2, 0), L(1, 0), L(1, 1), L(-1, 0)>>, <<L(0, 0), L(2, 0), L(5, 2)>>,
          <<L(3, 0), L(3, 0)>>, <<L(0, 0), L(1, 0), L(5, 3)>>, <<L(1, 0), L(1, 0), L(2, 0)>>, <<L(100, 0), L(101, 0)>>, <<L(0, 0), L(1, 20)>> >>
Infs == << <<MInf, PInf>>, <<PInf, MInf>>, <<L(0, 0), PInf>>, <<PInf, L(0, 0)>>, <<MInf, L(0, 0)>>, <<L(0, 0), MInf>>,
           <<MInf, L(1, 0), PInf>>, <<PInf, L(2, 0), L(-1, 1), MInf>>, <<L(1, 0), L(3, 0), PInf>>, <<PInf, L(3, 0), L(1, 0)>>,
           <<MInf, L(-2, 0), L(1, 1)>>, <<L(1, 1), L(-2, 0), MInf>>, <<MInf, L(0, 0), PInf>>, <<L(-1, 2), PInf>>, <<MInf, L(7, 1)>>, <<L(-3, 0), L(-1, 0), L(2, 0), PInf>> >>
\* every finite end, without and with break points, towards either infinity, in either direction
Ends == << L(-3, 0), L(-1, 1), L(0, 0), L(3, 1), L(5, 0), L(-13, 2) >>
Plus(a, k) == IF a[2] >= 1 THEN <<a[1] + (k * (IF a[2] = 1 THEN 2 ELSE 4)), a[2]>> ELSE <<a[1] + k, 0>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
MoreInfs == FlattenSeq([i \in 1..Len(Ends) |->
    LET a == Ends[i]
        up == << <<a, PInf>>, <<a, Plus(a, 1), PInf>>, <<a, Plus(a, 1), Plus(a, 4), PInf>> >>
        dn == << <<MInf, a>>, <<MInf, Plus(a, -2), a>>, <<MInf, Plus(a, -5), Plus(a, -1), a>>, <<MInf, a, PInf>>, <<MInf, Plus(a, -3), Plus(a, 2), PInf>> >>
        all == up \o dn
    IN  all \o [k \in 1..Len(all) |-> Rev(all[k])]])
FinF == << <<"poly", 3>>, <<"poly", 14>>, <<"kink", 5>>, <<"sqrt", 6>>, <<"step", 3>>, <<"osc", 30>>, <<"cexp", 40>>, <<"peak", 9>>, <<"zero", 0>>, <<"pint", 0>>, <<"exp", 0>>, <<"ckink", 7>> >>
InfF == << <<"gauss", 0>>, <<"lorentz", 0>>, <<"expabs", 0>>, <<"shift", 20>>, <<"cgauss", 24>>, <<"alg", 3>> >>
Orders == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 20, 31>>
TypOf(i) == <<"float", "int", "np64", "npint", "f32", "float">>[(i % 6) + 1]
TypI(i) == <<"float", "int", "np64", "npint">>[(i % 4) + 1]
\* noise-free runs: every integrand on every kind of range, orders and tolerances in turn
Shifts == RG(1, IF Quick THEN 1 ELSE 12)
FinJ(sh) == FlattenSeq([i \in 1..Len(FinF) |-> [p \in 1..Len(Fin) |->
     LET o == Orders[((i + p + sh) % Len(Orders)) + 1]
     IN  Job(FinF[i][1], FinF[i][2], Fin[p], o, IF (i + p) % 3 = 0 THEN 20 ELSE -1, IF o < 4 THEN 12 ELSE IF (i + p) % 2 = 0 THEN 0 ELSE 20, IF o < 4 THEN 400 ELSE 3000, TypOf(i + (2 * p) + sh))]])
\* (e^100 overflows in single precision)
FinJobs == Filter(FlattenSeq([k \in 1..Len(Shifts) |-> FinJ(k - 1)]), LAMBDA j : ~(j.f = "exp" /\ j.typ = "f32" /\ j.pts[1] = L(100, 0)))
\* (single-precision limits of infinite ranges round the nodes to single precision)
InfJ(sh) == FlattenSeq([i \in 1..Len(InfF) |-> [p \in 1..Len(Infs) |->
     LET o == Orders[((i + (2 * p) + sh) % Len(Orders)) + 1]
     IN  Job(InfF[i][1], InfF[i][2], Infs[p], o, IF (i + p) % 3 = 0 THEN 16 ELSE -1, IF o < 4 THEN 10 ELSE IF (i + p) % 2 = 0 THEN 0 ELSE 20, IF o < 4 THEN 500 ELSE 3000, TypI(i + p + sh))]])
InfJobs == FlattenSeq([k \in 1..Len(Shifts) |-> InfJ(k - 1)])
MoreJobs == FlattenSeq([p \in 1..Len(MoreInfs) |-> [k \in 1..(IF Quick THEN 3 ELSE Len(InfF)) |->
     LET f == InfF[1 + ((p + (k * 2)) % Len(InfF))]
         o == Orders[((k + (2 * p)) % Len(Orders)) + 1]
     IN  Job(f[1], f[2], MoreInfs[p], o, IF p % 3 = 0 THEN 16 ELSE -1, IF o < 4 THEN 9 ELSE 18, IF o < 4 THEN 400 ELSE 2000, TypI(k + p))]])
\* integrals that cancel between segments: the tolerance is relative to the whole
CancelJobs == Cat2(<<"step", "odd", "steep">>, <<2, 5, 8, 11>>, LAMBDA f, t : Job(f, 0, <<L(-1, 0), L(0, 0), L(1, 0)>>, 3 + (t % 5), -1, t, 1500, "float"))
        \o Cat2(<<"odd", "steep">>, <<3, 6, 9>>, LAMBDA f, t : Job(f, 1, <<L(-1, 0), L(1, 1), L(5, 2)>>, 4, -1, t, 1500, "float"))
\* default arguments
\* (of integrals far from zero: one that vanishes need not satisfy any relative tolerance)
DefJobs == << Job("osc", 30, Fin[1], 0, 0, 0, 0, "float"), Job("osc", 30, Fin[4], 0, 0, 0, 0, "float") >> \o Cat2(<< <<"poly", 4>>, <<"exp", 0>>, <<"kink", 5>>, <<"cexp", 40>> >>, <<Fin[1], Fin[4], Fin[5], Fin[2]>>, LAMBDA f, P : Job(f[1], f[2], P, 0, 0, 0, 0, "float"))
        \o Cat2(<< <<"gauss", 0>>, <<"lorentz", 0>>, <<"shift", 20>> >>, Infs, LAMBDA f, P : Job(f[1], f[2], P, 0, 0, 0, 0, "float"))
\* budgets: exactly at, just below and above what is used; never-converging integrands
Budgets(n) == <<1, n, (2 * n) + 1, (2 * n) + 2, (6 * n) + 3, (6 * n) + 4, (10 * n) + 5, 200, 333>>
BudJobs == FlattenSeq([o \in 1..Len(Orders) |-> [b \in 1..9 |->
     Job(<<"noise", "kink", "step">>[(b % 3) + 1], 7, Fin[1 + ((o + b) % 6)], Orders[o], -1, 50, Budgets(Orders[o])[b], "float")]])
     \o [o \in 1..Len(Orders) |-> Job("noise", 3, Fin[3], Orders[o], -1, -1, 400, "float")]
     \o [o \in 1..Len(Orders) |-> Job("kink", 5, Fin[1], Orders[o], -1, -1, 300, "float")]
     \o [o \in 1..Len(Orders) |-> Job("expabs", 5, Infs[1 + o], Orders[o], -1, 52, 300, "float")]
\* tolerances: every power of two
TolJobs == Cat2(<<"kink", "sqrt", "peak", "ckink">>, IF Quick THEN RG(1, 26) ELSE RG(1, 34), LAMBDA f, t : Job(f, 5, Fin[1 + (t % 6)], 4, t, -1, 2000, "float"))
        \o Cat2(<<"kink", "sqrt", "peak", "ckink">>, IF Quick THEN RG(1, 26) ELSE RG(1, 34), LAMBDA f, t : Job(f, 6, Fin[1 + (t % 6)], 5, -1, t, 2000, "float"))
        \o Cat2(<<"lorentz", "expabs", "shift">>, <<3, 8, 13, 18, 23>>, LAMBDA f, t : Job(f, 6, Infs[1 + ((2 * t) % 16)], 6, t, -1, 2000, "float"))
        \* an absolute tolerance larger than the relative one and the other way round
        \o Cat2(<<"peak", "kink">>, << <<4, 30>>, <<30, 4>>, <<8, 12>>, <<12, 8>>, <<-2, 20>> >>, LAMBDA f, t : Job(f, 6, Fin[3], 3, t[1], t[2], 1500, "float"))
\* what must be refused
Bad(f, P, n) == [Job(f, 4, P, n, -1, 0, 1000, "float") EXCEPT !.fam = "bad"]
BadJobs == << Bad("nan", Fin[1], 7), Bad("nan", Infs[1], 7), Bad("nan", Infs[3], 5), Bad("nanr", Fin[3], 4), Bad("inff", Fin[1], 7), Bad("inff", Fin[2], 2),
              Bad("cnan", Fin[1], 3), Bad("pole", Fin[3], 7), Bad("pole", Fin[3], 3), Bad("exp", <<>>, 7), Bad("exp", <<L(1, 0)>>, 7), Bad("exp", Fin[1], 0), Bad("exp", Fin[1], -2),
              Bad("raise", Fin[1], 7), Bad("raise", Infs[2], 7), Bad("later", Fin[1], 7), Bad("latenan", Fin[1], 7), Bad("exp", <<L(0, 0), <<0, -2>> >>, 5), Bad("exp", << <<0, -2>>, L(0, 0)>>, 5) >>
\* along straight lines of the complex plane
LineJobs == FlattenSeq([i \in 1..Len(FinF) |-> [p \in 1..Len(Fin) |->
     LET o == Orders[((i + (3 * p)) % Len(Orders)) + 1]
     IN  Job(FinF[i][1], FinF[i][2], Fin[p], o, IF (i + p) % 3 = 0 THEN 20 ELSE -1, IF o < 4 THEN 12 ELSE 20, IF o < 4 THEN 400 ELSE 2000, <<"cI", "cneg", "cIneg">>[1 + ((i + p) % 3)])]])
Plan == LineJobs \o MoreJobs \o CancelJobs \o FinJobs \o InfJobs \o DefJobs \o BudJobs \o TolJobs \o BadJobs
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
