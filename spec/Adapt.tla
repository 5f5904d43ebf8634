-------------------------------- MODULE Adapt --------------------------------
(***************************************************************************)
(* Adaptive integration as a machine.  A state is a cover of the interval   *)
(* by segments with a value and an error estimate each, and the number of   *)
(* evaluations made.  A step bisects a segment whose error is largest; the  *)
(* machine stops when the total error meets a tolerance or the budget of    *)
(* evaluations is used up.  The operators are written over an ordering      *)
(* le(a, b), instantiated with integers in the model and with rounding      *)
(* allowances when recorded runs are replayed.                              *)
(***************************************************************************)
EXTENDS Kron
Largest(errs, k, le(_, _)) == \A i \in DOMAIN errs : le(errs[i], errs[k])
MeetsTol(E, A, R, le(_, _)) == le(E, A) \/ le(E, R)        \* A: absolute, R: relative times |I|
EvalsOfSeg(n) == (2 * n) + 1
Bisect(segs, k, l, r) == SubSeq(segs, 1, k - 1) \o <<l, r>> \o SubSeq(segs, k + 1, Len(segs))

(* ---- transformation of infinite ranges to (-1, 1) or (0, 1) ---------------- *)
\* kinds: "fin" x = t; "both" x = t / (1 - t^2); "pos" x = s0 + t / (1 - t);
\* "neg" x = s0 - t / (1 - t).  A limit is <<numerator, halvings>> or <<sign, -1>>.
IsInf(p) == p[2] = -1
LimVal(p) == FxQ(p[1], 2 ^ p[2])
Kind(P) == LET a == P[1]
               b == P[Len(P)]
           IN  IF IsInf(a) /\ IsInf(b) THEN "both"
               ELSE IF IsInf(a) \/ IsInf(b) THEN (IF (IF IsInf(a) THEN a[1] ELSE b[1]) > 0 THEN "pos" ELSE "neg")
               ELSE "fin"
Base(P) == IF IsInf(P[1]) THEN LimVal(P[Len(P)]) ELSE LimVal(P[1])
TOf(kd, s0, x) ==
    CASE kd = "fin" -> x
      [] kd = "both" -> FxDiv(BShl(x, 1), BAdd(FxOne, FxSqrt(BAdd(FxOne, BShl(FxMul(x, x), 2)))))
      [] OTHER -> LET u == IF kd = "pos" THEN BSub(x, s0) ELSE BSub(s0, x)
                  IN  FxDiv(u, BAdd(FxOne, u))
\* dx/dt (absolute value), expressed by x
JacOf(kd, s0, x) ==
    CASE kd = "fin" -> FxOne
      [] kd = "both" -> LET t == TOf(kd, s0, x)
                            t2 == FxMul(t, t)
                            den == IF t = BZero THEN FxOne ELSE FxDiv(x, t)
                        IN  FxMul(FxMul(den, den), BAdd(FxOne, t2))
      [] OTHER -> LET u == BAdd(FxOne, IF kd = "pos" THEN BSub(x, s0) ELSE BSub(s0, x)) IN FxMul(u, u)
TLim(kd, s0, p) == IF IsInf(p) THEN (IF kd = "both" THEN FxInt(p[1]) ELSE FxOne) ELSE TOf(kd, s0, LimVal(p))
\* limits in t; the orientation of "neg" is reversed
TLims(P) == LET kd == Kind(P)
                T == Force([i \in 1..Len(P) |-> TLim(kd, Base(P), P[i])])
            IN  IF kd = "neg" THEN Force([i \in 1..Len(T) |-> T[Len(T) + 1 - i]]) ELSE T

(* ---- one segment ------------------------------------------------------------ *)
\* recorded evaluations <<ts, ws>> (ascending t, values times dx/dt) are those of the
\* rule R on the segment between a and b
NodesOK(R, a, b, ts, tol) ==
    LET lo == BMin(a, b)
        h == BShr(BAbs(BSub(b, a)), 1)
    IN  /\ Len(ts) = Len(R.x)
        /\ VxNear(ts, Force([i \in 1..Len(ts) |-> BAdd(lo, FxMul(h, BAdd(FxOne, R.x[i])))]), tol)
\* segment: limits, value (re, im), error, scale of the sums
SegOf(R, a, b, fr, fi) ==
    LET h == BShr(BSub(b, a), 1)
        d == VSub(R.w, R.g)
        abs(u) == Force([i \in 1..Len(u) |-> BAbs(u[i])])
        kr == FxMul(h, FxDot(R.w, fr))
        ki == FxMul(h, FxDot(R.w, fi))
        er == FxMul(h, FxDot(d, fr))
        ei == FxMul(h, FxDot(d, fi))
    IN  Force([a |-> a, b |-> b, re |-> kr, im |-> ki,
               E |-> IF ei = BZero THEN BAbs(er) ELSE BSqrt(BAdd(BMul(er, er), BMul(ei, ei))),
               sc |-> FxMul(BAbs(h), FxDot(R.w, VAdd(abs(fr), abs(fi))))])
Total(S, f(_)) == FoldLeft(LAMBDA t, s : BAdd(t, f(s)), BZero, S)
=============================================================================
