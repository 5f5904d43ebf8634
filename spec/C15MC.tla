-------------------------------- MODULE C15MC --------------------------------
(***************************************************************************)
(* The skyline as a scan from the end of the listing, and the fit as the   *)
(* minimiser of the squared deviations.                                    *)
(***************************************************************************)
EXTENDS BasisPlan, Decay
VARIABLES su, sp, sc, sr, fv
Vals4 == 0..3
SLen == IF Quick THEN 5 ELSE 6
NewMax(a, b) == IF a < b THEN b ELSE a
SInit == \E n \in 2..SLen : /\ su \in [1..n -> Vals4] /\ sp = n
                            /\ sc = NewMax(su[n], su[n - 1]) /\ sr = <<>> /\ fv = ""
SNext == /\ sp > 0 /\ sc' = NewMax(sc, su[sp]) /\ sr' = <<NewMax(sc, su[sp])>> \o sr
         /\ sp' = sp - 1 /\ UNCHANGED <<su, fv>>
\* partial results are suffix maxima; at the end they are the (decreasing) skyline
SInv == LET n == Len(su)
            big == [i \in 1..n |-> BInt(su[i])]
        IN  /\ \A i \in 1..Len(sr) : LET p == sp + i
                                     IN  /\ \A j \in p..n : sr[i] >= su[j]
                                         /\ \E j \in (IF p = n THEN n - 1 ELSE p)..n : sr[i] = su[j]
            /\ \A i \in 1..(Len(sr) - 1) : sr[i] >= sr[i + 1]
            /\ sp = 0 => /\ [i \in 1..n |-> BInt(sr[i])] = Skyline(big)
                         /\ SkylineF(big) = Skyline(big)
\* the fit: no deviation in direction (1, 0) or (0, 1) is left
FDeg == { <<1, 1>>, <<1, 2>>, <<1, 1, 2>>, <<1, 2, 1, 2, 2>>, <<1, 2, 3>>, <<2, 2, 2>>, <<3>>, <<0, 1, 2, 1>>, <<1, 2, 3, 4, 2, 1>>, <<0>> }
FInit == su \in FDeg /\ sp = -1 /\ sc \in 0..5 /\ sr = <<>> /\ fv = "todo"
FitOK(k, salt) ==
    LET n == Len(k)
        y == Force([i \in 1..n |-> FxQ((HH(i, salt + 3) % 2000) - 1000, 97)])
        f == Fit(y, k)
        x == Force([i \in 1..n |-> IF k[i] <= 1 THEN BZero ELSE FxLn(FxInt(k[i]))])
        r == Force([i \in 1..n |-> BSub(y[i], BAdd(f[1], FxMul(f[2], x[i])))])
    IN  /\ FxNear(FxSum(r), BZero, FxEps(120)) /\ FxNear(FxDot(r, x), BZero, FxEps(120))
        \* the smallest one: orthogonal to the kernel (x1, -1) if all x agree
        /\ (\A i \in 1..n : x[i] = x[1]) => FxNear(FxMul(f[1], x[1]), f[2], FxEps(120))
FNext == fv = "todo" /\ fv' = (IF FitOK(su, sc) THEN "ok" ELSE "bad") /\ UNCHANGED <<su, sp, sc, sr>>
DIdle == su = <<>> /\ sp = 0 /\ sc = 0 /\ sr = <<>> /\ fv = ""
NInit == \/ BInit /\ DIdle
         \/ (SInit \/ FInit) /\ OrthoIdle /\ me = 0 /\ mv = "ok"
NNext == \/ BNext /\ UNCHANGED <<su, sp, sc, sr, fv>>
         \/ (FNext \/ SNext) /\ UNCHANGED <<vars, me, mv>>
NInv == BInv /\ fv # "bad" /\ ((Len(su) > 1 /\ fv = "") => SInv)

(* ---- coefficients: <<numerator, halvings>> stands for num 2^-halvings ----- *)
Sgn(i) == IF HH(i, 41) % 2 = 0 THEN 1 ELSE -1
Num(i, salt) == ((HH(i, salt) % 4093) + 17) * Sgn(i + salt)
\* patterns for element e: i-th coefficient, of degree k
Pat(p, i, k, m) ==
    CASE p = 1 -> <<Num(i, 3), 12>>                              \* noise
      [] p = 2 -> <<Num(i, 5), 12 + k>>                          \* exponential decay
      [] p = 3 -> <<(1048576 \div ((k + 1) * (k + 1))) * Sgn(i), 20>> \* algebraic decay
      [] p = 4 -> <<IF i = 1 THEN 5 ELSE 0, 0>>                  \* constant function
      [] p = 5 -> <<IF i = m THEN -3 ELSE 1, 3>>                 \* spike at the end
      [] p = 6 -> <<IF i = m - 1 THEN 7 ELSE 0, 2>>              \* spike before the end
      [] p = 7 -> <<IF k <= 1 THEN Num(i, 9) ELSE 0, 10>>        \* a linear function
      [] p = 8 -> <<Num(i, 11), 40 - k>>                         \* growth, tiny
      [] p = 9 -> <<Num(i, 13), 2 + (3 * k)>>                    \* large, fast decay
      [] p = 10 -> <<IF i = 2 THEN 4000 ELSE Num(i, 15), 22>>    \* early spike
      [] p = 11 -> <<Num(i, 17), IF k > 2 THEN 40 ELSE 8>>
      [] OTHER -> <<((HH(i, 19 + p) % 7) - 3) * 2, 0>>           \* small integers (the first one may be 0)
Elems(p, cnt, d, n) == LET k == Degrees(d, n)
                       IN  [e \in 1..cnt |-> [i \in 1..Len(k) |->
                              LET c == Pat(((p + e - 2) % 12) + 1, i, k[i], Len(k))
                              IN  IF i = 1 /\ c[1] = 0 THEN <<1, c[2]>> ELSE c]]
JobF(d, n, ign, cnt, p, mem) == [fam |-> "fit", el |-> EP(d, n), d |-> d, n |-> n, ign |-> ign, coefs |-> Elems(p, cnt, d, n), mem |-> mem, tail |-> 0, p |-> p, kind |-> ""]
Sizes3 == << <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 5>>, <<1, 10>>, <<1, 20>>, <<2, 1>>, <<2, 2>>, <<2, 4>>, <<2, 7>>, <<3, 1>>, <<3, 2>>, <<3, 4>> >>
   \o (IF Quick THEN <<>> ELSE << <<1, 4>>, <<1, 7>>, <<1, 15>>, <<1, 30>>, <<2, 3>>, <<2, 5>>, <<2, 10>>, <<3, 3>>, <<3, 6>>, <<4, 2>>, <<4, 3>> >>)
Igns(d, n) == SelectSeq(<<0, 1, 2, 3, 4>>, LAMBDA i : i < SpaceDim(<< <<d, n>> >>))
FitJobs == FlattenSeq([s \in 1..Len(Sizes3) |->
    LET d == Sizes3[s][1]
        n == Sizes3[s][2]
    IN  Cat2(Igns(d, n), <<1, 4, 7, 10>>, LAMBDA i, p : JobF(d, n, i, 3, p, IF (i + p) % 3 = 0 THEN "F" ELSE IF (i + p) % 3 = 1 THEN "C" ELSE "strided"))
        \o Cat2(<<1>>, RG(1, 12), LAMBDA i, p : JobF(d, n, i, 1, p, "C"))
        \o << JobF(d, n, 1, 0, 1, IF n % 2 = 0 THEN "C" ELSE "F"), JobF(d, n, 1, 12, 1, "C"), JobF(d, n, 1, 5, 12, "int"), JobF(d, n, 1, 24, 5, "strided"), JobF(d, n, IF SpaceDim(<< <<d, n>> >>) > 2 THEN n % 3 ELSE 1, 7, n, "many") >>])
MJob(fam, el, kind, t) == [fam |-> fam, el |-> el, d |-> 0, n |-> 0, ign |-> 0, coefs |-> <<>>, mem |-> "", tail |-> t, p |-> 0, kind |-> kind]
DegEls == Filter(OnbEls, LAMBDA el : TRUE)
TailEls == Filter(OnbEls, LAMBDA el : TPDim(el.fs) > 0 /\ SpaceDim(el.fs) <= 40 /\ \A k \in DOMAIN el.fs : el.fs[k][1] > 0 /\ el.fs[k][2] <= 8)
Plan == FitJobs
     \o LET L == Filter(CompEls, LAMBDA el : \A k \in DOMAIN el.ks : el.ks[k] # U_) IN [i \in 1..Len(L) |-> MJob("deg", L[i], "comp", 0)]
     \o << JobF(2, 3, 1, 48, 3, "C"), JobF(1, 6, 2, 60, 8, "F"), JobF(3, 2, 0, 36, 1, "strided"), JobF(2, 5, 1, 1, 2, "strided") >>
     \o Cat2(DegEls, <<"onb", "mono">>, LAMBDA el, k : MJob("deg", el, k, 0))
     \o Cat2(TailEls, <<0, 1, 2, 3, 9>>, LAMBDA el, t : MJob("tail", el, "onb", t))
     \o Cat2(Filter(TailEls, LAMBDA el : el.form = "P"), <<1, 2>>, LAMBDA el, t : MJob("stail", el, "onb", t))
     \o Cat2(Filter(TailEls, LAMBDA el : \A k \in DOMAIN el.fs : el.fs[k][2] <= 4), <<1, 2>>, LAMBDA el, t : MJob("tail", el, "mono", t))
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
