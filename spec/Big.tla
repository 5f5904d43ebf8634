-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Arbitrary-precision integers and vectors of them.                       *)
(*                                                                         *)
(* TLC's integers have 32 bits, so that the specification of a numerical   *)
(* library needs its own.  A big integer is a sequence <<s, l1, .., lk>>:  *)
(* its sign s \in {-1, 0, 1} and the limbs of its magnitude in base 2^15,  *)
(* least significant first, without leading zeros; zero is <<0>>.          *)
(*                                                                         *)
(* Every operator P* below is a complete definition in TLA+.  The          *)
(* operators B* and V* used by the other modules are equal to them by      *)
(* definition, and are the ones TLC replaces by java/VerifOverrides.java   *)
(* to be fast; BigTest.tla checks that both agree.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

LB == 32768

Abs(n) == IF n < 0 THEN -n ELSE n
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

(* ---- magnitudes: sequences of limbs ---------------------------------- *)
RECURSIVE PStrip(_)
PStrip(m) == IF m = <<>> THEN m
             ELSE IF m[Len(m)] = 0 THEN PStrip(SubSeq(m, 1, Len(m) - 1)) ELSE m

PLimb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE PMAddR(_, _, _, _)
PMAddR(m, n, i, c) ==
    IF i > Max2(Len(m), Len(n)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == PLimb(m, i) + PLimb(n, i) + c
         IN  <<t % LB>> \o PMAddR(m, n, i + 1, t \div LB)
PMAdd(m, n) == PMAddR(m, n, 1, 0)

RECURSIVE PMSubR(_, _, _, _)                    \* m >= n
PMSubR(m, n, i, c) ==
    IF i > Len(m) THEN <<>>
    ELSE LET t == PLimb(m, i) - PLimb(n, i) - c
         IN  IF t < 0 THEN <<t + LB>> \o PMSubR(m, n, i + 1, 1)
                      ELSE <<t>> \o PMSubR(m, n, i + 1, 0)
PMSub(m, n) == PStrip(PMSubR(m, n, 1, 0))

RECURSIVE PMCmpR(_, _, _)
PMCmpR(m, n, i) == IF i = 0 THEN 0
                   ELSE IF m[i] > n[i] THEN 1
                   ELSE IF m[i] < n[i] THEN -1 ELSE PMCmpR(m, n, i - 1)
PMCmp(m, n) == IF Len(m) > Len(n) THEN 1 ELSE IF Len(m) < Len(n) THEN -1
               ELSE PMCmpR(m, n, Len(m))

RECURSIVE PMScaleR(_, _, _, _)                  \* 0 <= k < LB
PMScaleR(m, k, i, c) ==
    IF i > Len(m) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == m[i] * k + c IN <<t % LB>> \o PMScaleR(m, k, i + 1, t \div LB)
PMScale(m, k) == IF k = 0 THEN <<>> ELSE PMScaleR(m, k, 1, 0)

RECURSIVE PMMulR(_, _)
PMMulR(m, n) == IF n = <<>> THEN <<>>
                ELSE LET r == PMMulR(m, Tail(n))
                         t == PMScale(m, Head(n))
                     IN  PMAdd(t, IF r = <<>> THEN <<>> ELSE <<0>> \o r)
PMMul(m, n) == IF m = <<>> \/ n = <<>> THEN <<>> ELSE PStrip(PMMulR(m, n))

(* ---- signed integers ------------------------------------------------- *)
PMk(s, m) == LET t == PStrip(m) IN IF t = <<>> THEN <<0>> ELSE <<s>> \o t
PMag(a) == Tail(a)
PNeg(a) == <<-a[1]>> \o Tail(a)
PAbs(a) == <<Abs(a[1])>> \o Tail(a)
PSign(a) == a[1]
PAdd(a, b) ==
    IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
    ELSE IF a[1] = b[1] THEN PMk(a[1], PMAdd(Tail(a), Tail(b)))
    ELSE LET c == PMCmp(Tail(a), Tail(b))
         IN  IF c = 0 THEN <<0>>
             ELSE IF c = 1 THEN PMk(a[1], PMSub(Tail(a), Tail(b)))
             ELSE PMk(b[1], PMSub(Tail(b), Tail(a)))
PSub(a, b) == PAdd(a, PNeg(b))
PMul(a, b) == PMk(a[1] * b[1], PMMul(Tail(a), Tail(b)))
PCmp(a, b) == PSub(a, b)[1]

RECURSIVE PNatLimbs(_)
PNatLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % LB>> \o PNatLimbs(n \div LB)
PInt(n) == IF n < 0 THEN PMk(-1, PNatLimbs(-n)) ELSE PMk(1, PNatLimbs(n))

RECURSIVE PPow2(_)
PPow2(k) == IF k >= 15 THEN <<0>> \o PPow2(k - 15) ELSE <<2 ^ k>>
PShl(a, k) == PMul(a, <<1>> \o PPow2(k))

\* <<quotient, remainder>> of magnitudes, by binary long division
RECURSIVE PMDivR(_, _, _, _)
PMDivR(m, n, i, qr) ==          \* i: bits of m left to bring down
    IF i = 0 THEN qr
    ELSE LET bit == (m[((i - 1) \div 15) + 1] \div (2 ^ ((i - 1) % 15))) % 2
             r   == PStrip(PMAdd(PMScale(qr[2], 2), IF bit = 1 THEN <<1>> ELSE <<>>))
             ge  == PMCmp(r, n) >= 0
             q   == PMAdd(PMScale(qr[1], 2), IF ge THEN <<1>> ELSE <<>>)
         IN  PMDivR(m, n, i - 1, <<PStrip(q), IF ge THEN PMSub(r, n) ELSE r>>)
PMDiv(m, n) == PMDivR(m, n, 15 * Len(m), <<<<>>, <<>>>>)
\* floor(a / b), b # 0
PDiv(a, b) ==
    IF a[1] = 0 THEN <<0>>
    ELSE LET qr == PMDiv(Tail(a), Tail(b))
         IN  IF a[1] * b[1] > 0 THEN PMk(1, qr[1])
             ELSE IF qr[2] = <<>> THEN PMk(-1, qr[1])
             ELSE PMk(-1, PMAdd(qr[1], <<1>>))
PShr(a, k) == PDiv(a, <<1>> \o PPow2(k))

RECURSIVE PMGcd(_, _)
PMGcd(m, n) == IF n = <<>> THEN m ELSE PMGcd(n, PMDiv(m, n)[2])
PGcd(a, b) == PMk(1, PMGcd(Tail(a), Tail(b)))

\* floor(sqrt(a)), a >= 0: Newton's iteration from above
RECURSIVE PSqrtR(_, _)
PSqrtR(a, x) == LET y == PDiv(PAdd(x, PDiv(a, x)), PInt(2))
                IN  IF PCmp(y, x) >= 0 THEN x ELSE PSqrtR(a, y)
PSqrt(a) == IF a[1] = 0 THEN a
            ELSE PSqrtR(a, PShl(PInt(1), (15 * (Len(a) - 1)) \div 2 + 1))

\* hexadecimal strings, as written by the drivers
HexDigit == [c \in {"0","1","2","3","4","5","6","7","8","9",
                    "a","b","c","d","e","f"} |->
    CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
      [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
      [] c = "8" -> 8 [] c = "9" -> 9 [] c = "a" -> 10 [] c = "b" -> 11
      [] c = "c" -> 12 [] c = "d" -> 13 [] c = "e" -> 14 [] c = "f" -> 15]
RECURSIVE PHexR(_, _, _)
PHexR(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE PHexR(s, i + 1, PMAdd(PMScale(acc, 16), <<HexDigit[SubSeq(s, i, i)]>>))
PHex(s) == IF SubSeq(s, 1, 1) = "-" THEN PMk(-1, PHexR(s, 2, <<>>))
           ELSE PMk(1, PHexR(s, 1, <<>>))
\* blank-separated list of them; the empty string is the empty list
RECURSIVE PVHexR(_, _, _)
PVHexR(s, i, j) ==              \* current item is s[i..j-1]
    IF j > Len(s) THEN <<PHex(SubSeq(s, i, j - 1))>>
    ELSE IF SubSeq(s, j, j) = " "
         THEN <<PHex(SubSeq(s, i, j - 1))>> \o PVHexR(s, j + 1, j + 1)
         ELSE PVHexR(s, i, j + 1)
PVHex(s) == IF s = "" THEN <<>> ELSE PVHexR(s, 1, 1)

(* ---- vectors --------------------------------------------------------- *)
PVAdd(u, v) == [i \in 1..Len(u) |-> PAdd(u[i], v[i])]
PVSub(u, v) == [i \in 1..Len(u) |-> PSub(u[i], v[i])]
\* componentwise product of fixed-point vectors with k fractional bits
PVMul(u, v, k) == [i \in 1..Len(u) |-> PShr(PMul(u[i], v[i]), k)]
\* n u / d for integers n, d
PVScale(u, n, d) == [i \in 1..Len(u) |-> PDiv(PMul(u[i], n), d)]
RECURSIVE PVSum(_)
PVSum(u) == IF u = <<>> THEN <<0>> ELSE PAdd(Head(u), PVSum(Tail(u)))
PVDot(u, v) == PVSum([i \in 1..Len(u) |-> PMul(u[i], v[i])])
RECURSIVE PVMaxAbs(_)
PVMaxAbs(u) == IF u = <<>> THEN <<0>>
               ELSE LET m == PVMaxAbs(Tail(u))
                    IN  IF PCmp(PAbs(Head(u)), m) > 0 THEN PAbs(Head(u)) ELSE m

(* ---- the names used everywhere else (overridden, see above) ----------- *)
BInt(n) == PInt(n)
BNeg(a) == PNeg(a)
BAbs(a) == PAbs(a)
BAdd(a, b) == PAdd(a, b)
BSub(a, b) == PSub(a, b)
BMul(a, b) == PMul(a, b)
BCmp(a, b) == PCmp(a, b)
BDiv(a, b) == PDiv(a, b)
BShl(a, k) == PShl(a, k)
BShr(a, k) == PShr(a, k)
BGcd(a, b) == PGcd(a, b)
BSqrt(a) == PSqrt(a)
BHex(s) == PHex(s)
VHex(s) == PVHex(s)
VAdd(u, v) == PVAdd(u, v)
VSub(u, v) == PVSub(u, v)
VMul(u, v, k) == PVMul(u, v, k)
VScale(u, n, d) == PVScale(u, n, d)
VSum(u) == PVSum(u)
VDot(u, v) == PVDot(u, v)
VMaxAbs(u) == PVMaxAbs(u)

\* Identity.  (TLC evaluates [i \in 1..n |-> e] anew at every application;
\* the override evaluates it once.)
Force(v) == v

BLe(a, b) == BCmp(a, b) <= 0
BLt(a, b) == BCmp(a, b) < 0
BEq(a, b) == BCmp(a, b) = 0
BMax(a, b) == IF BLe(a, b) THEN b ELSE a
BMin(a, b) == IF BLe(a, b) THEN a ELSE b
BSign(a) == a[1]
BZero == <<0>>
BOne == <<1, 1>>
=============================================================================
