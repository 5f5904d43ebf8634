------------------------------ MODULE C16Trace ------------------------------
(***************************************************************************)
(* Recorded runs, replayed in the machine.  Errors and integrals are sums   *)
(* over the recorded values with the rule of the specification; the        *)
(* library's rounding errors are at most 2^-43 of the sum of the magnitudes.*)
(***************************************************************************)
EXTENDS Adapt, Judge
RoundTol == FxEps(43)
Spent(n, S, T) == EvalsOfSeg(n) * ((2 * Len(S)) - (Len(T) - 1))
Norder(e) == IF e.job.n = 0 THEN 7 ELSE e.job.n
AbsTol(j) == IF j.at = 0 \/ j.at = -1 THEN BZero ELSE IF j.at = -2 THEN FxInt(-1) ELSE FxEps(j.at)
RelTol(j) == IF j.rt = 0 THEN FxBQ(BInt(149), BPow(BInt(10), 10)) ELSE IF j.rt = -1 THEN BZero ELSE FxEps(j.rt)
Budget(j) == IF j.mx = 0 THEN 10000000 ELSE j.mx
\* a chunk of recorded evaluations, in ascending t, values times dx/dt
Rev(u) == Force([i \in 1..Len(u) |-> u[Len(u) + 1 - i]])
Chunk(c, kd, s0) ==
    LET x == VHex(c.x)
        jac == Force([i \in 1..Len(x) |-> JacOf(kd, s0, x[i])])
        t == Force([i \in 1..Len(x) |-> TOf(kd, s0, x[i])])
        fr == VxMul(VHex(c.re), jac)
        fi == IF c.im = "" THEN VConst(BZero, Len(x)) ELSE VxMul(VHex(c.im), jac)
    IN  IF kd = "neg" THEN <<Rev(t), Rev(fr), Rev(fi)>> ELSE <<t, fr, fi>>
\* the state: [S: segments, ok: "" or what is wrong, sc: largest scale so far]
AbsI(S) == LET r == Total(S, LAMBDA s : s.re)
               i == Total(S, LAMBDA s : s.im)
           IN  BSqrt(BAdd(BMul(r, r), BMul(i, i)))
Run(e, R, kd, s0, T) ==
    LET j == e.job
        n == Norder(e)
        xmax == FoldLeft(LAMBDA a, t : BMax(a, BAbs(t)), FxOne, T)
        ntol == FxMul(FxEps(IF kd = "fin" THEN 48 ELSE 43), xmax)
        m0 == Len(T) - 1
        C == Force([k \in DOMAIN e.chunks |-> Chunk(e.chunks[k], kd, s0)])
        K == Len(C)
        find(a, b, ks) == SelectSeq(ks, LAMBDA k : NodesOK(R, a, b, C[k][1], ntol))
        mk(a, b, k) == SegOf(R, a, b, C[k][2], C[k][3])
        first == [i \in 1..m0 |-> find(T[i], T[i + 1], [k \in 1..m0 |-> k])]
        S0 == Force([i \in 1..m0 |-> mk(T[i], T[i + 1], first[i][1])])
        scale(S) == Total(S, LAMBDA s : s.sc)
        \* one bisection, from chunks k, k+1
        Step(acc, k) ==
            IF acc.ok # "" THEN acc
            ELSE LET S == acc.S
                     tol == FxMul(RoundTol, acc.sc)
                     E == Total(S, LAMBDA s : s.E)
                     LeT(a, b) == BLe(a, BAdd(b, tol))
                     ltT(a, b) == BLt(BSub(a, tol), b)
                     probe == C[k][1][n + 1]
                     cand == Filter(RG(1, Len(S)), LAMBDA i :
                                LET s == S[i]
                                    m == BShr(BAdd(s.a, s.b), 1)
                                IN  /\ BLe(BMin(s.a, s.b), probe) /\ BLe(probe, BMax(s.a, s.b))
                                    /\ \/ NodesOK(R, s.a, m, C[k][1], ntol) /\ NodesOK(R, m, s.b, C[k + 1][1], ntol)
                                       \/ NodesOK(R, s.a, m, C[k + 1][1], ntol) /\ NodesOK(R, m, s.b, C[k][1], ntol))
                     best == FoldLeft(LAMBDA b, c : IF BLt(S[b].E, S[c].E) THEN c ELSE b, cand[1], cand)
                     sg == S[best]
                     m == BShr(BAdd(sg.a, sg.b), 1)
                     leftfirst == NodesOK(R, sg.a, m, C[k][1], ntol)
                     kl == IF leftfirst THEN k ELSE k + 1
                     kr == IF leftfirst THEN k + 1 ELSE k
                     errs == Force([q \in 1..Len(S) |-> S[q].E])
                     S2 == Force(Bisect(S, best, mk(sg.a, m, kl), mk(m, sg.b, kr)))
                 IN  IF ~(ltT(AbsTol(j), E) /\ ltT(FxMul(RelTol(j), AbsI(S)), E)) THEN [acc EXCEPT !.ok = "continues although a tolerance is met"]
                     ELSE IF Spent(n, S, T) >= Budget(j) THEN [acc EXCEPT !.ok = "continues beyond the budget"]
                     ELSE IF cand = <<>> THEN [acc EXCEPT !.ok = "evaluates outside the nodes of two halves of a segment"]
                     ELSE IF ~Largest(errs, best, LeT) THEN [acc EXCEPT !.ok = "bisects a segment whose error is not the largest"]
                     ELSE [S |-> S2, ok |-> "", sc |-> BMax(acc.sc, scale(S2))]
        start == IF K < m0 \/ (K - m0) % 2 = 1 \/ e.left # 0 THEN [S |-> <<>>, ok |-> "number of evaluations", sc |-> FxOne]
                 ELSE IF \E i \in 1..m0 : first[i] = <<>> THEN [S |-> <<>>, ok |-> "initial segments", sc |-> FxOne]
                 ELSE [S |-> S0, ok |-> "", sc |-> scale(S0)]
    IN  FoldLeft(LAMBDA acc, q : Force(Step(acc, m0 + (2 * q) - 1)), start, RG(1, IF start.ok = "" THEN (K - m0) \div 2 ELSE 0))
\* integrals known in closed form; chains of limits only matter by their ends
PolyPrim(k, x) == FxScale(FxPow(x, k + 1), 1, k + 1)
KinkPrim(c, x) == LET d == BSub(x, c) IN FxScale(FxMul(d, BAbs(d)), 1, 2)
Known(j) ==
    LET P == j.pts
        a == P[1]
        b == P[Len(P)]
        c == FxQ(j.c, 16)
        fin == Kind(P) = "fin"
        half(p) == IF IsInf(p) THEN p[1] ELSE 0          \* -1, 0, 1 for -inf, 0, inf
        sym == \A p \in {a, b} : IsInf(p) \/ p[1] = 0
    IN  CASE j.f = "poly" /\ fin -> <<BSub(PolyPrim(j.c, LimVal(b)), PolyPrim(j.c, LimVal(a)))>>
          [] j.f = "kink" /\ fin /\ (j.n = 0 \/ j.n >= 7) /\ (j.mx = 0 \/ j.mx >= 2000) -> <<BSub(KinkPrim(c, LimVal(b)), KinkPrim(c, LimVal(a)))>>
          [] j.f = "pint" /\ fin -> <<FxMul(FxInt(3), BSub(LimVal(b), LimVal(a)))>>
          [] j.f = "exp" /\ fin -> <<BSub(FxExp(LimVal(b)), FxExp(LimVal(a)))>>
          [] j.f = "gauss" /\ sym -> <<FxScale(FxSqrt(FxPi), half(b) - half(a), 2)>>
          [] j.f = "lorentz" /\ sym -> <<FxScale(FxPi, half(b) - half(a), 2)>>
          [] j.f = "expabs" /\ sym -> <<FxInt(half(b) - half(a))>>
          [] OTHER -> <<>>
Inside(e, kd) ==
    IF kd = "fin" THEN TRUE           \* (implied by the nodes)
    ELSE IF kd = "both" THEN TRUE
    ELSE LET s0 == Base(e.job.pts)
         IN  \A k \in DOMAIN e.chunks : LET x == VHex(e.chunks[k].x)
                                         IN  IF kd = "pos" THEN \A i \in DOMAIN x : BLe(s0, x[i]) ELSE \A i \in DOMAIN x : BLe(x[i], s0)
RunV(e) ==
    IF e.cls # "ok" THEN <<"terminates with a result">>
    ELSE LET j == e.job
             n == Norder(e)
             R == KRule(n)
             kd == Kind(j.pts)
             s0 == IF kd \in {"pos", "neg"} THEN Base(j.pts) ELSE BZero
             T == TLims(j.pts)
             fin == Run(e, R, kd, s0, T)
         IN  IF fin.ok # "" THEN <<fin.ok>>
             ELSE LET S == fin.S
                      tol == FxMul(RoundTol, BAdd(fin.sc, FxEps(60)))
                      E == Total(S, LAMBDA s : s.E)
                      re == Total(S, LAMBDA s : s.re)
                      im == Total(S, LAMBDA s : s.im)
                      LeT(a, b) == BLe(a, BAdd(b, tol))
                      kn == Known(j)
                  IN  Failing(<< <<"stops", MeetsTol(E, AbsTol(j), FxMul(RelTol(j), AbsI(S)), LeT) \/ Spent(n, S, T) >= Budget(j)>>,
                         <<"integral", FxNear(BHex(e.re), re, tol) /\ FxNear(BHex(e.im), im, tol)>>,
                         <<"error estimate", FxNear(BHex(e.E), E, tol)>>,
                         <<"inside", Inside(e, kd)>>,
                         <<"known integral", kn # <<>> => FxNear(BHex(e.re), kn[1], BAdd(BShl(E, IF j.f \in {"expabs", "kink", "ckink", "sqrt", "step"} THEN 6 ELSE 1), FxMul(FxEps(38), BAdd(FxOne, fin.sc))))>> >>)
BadV(e) == IF e.cls = "exc" /\ \E k \in DOMAIN e.exc : e.exc[k] = (IF e.job.f \in {"raise", "later"} THEN "Oops" ELSE "ValueError") THEN <<>> ELSE <<"refused">>
AdaptVerdict(e) == IF e.job.fam = "bad" THEN BadV(e) ELSE RunV(e)
=============================================================================
