-------------------------------- MODULE C19MC --------------------------------
(***************************************************************************)
(* Flattening of linear combinations preserves values, for every pair (and   *)
(* triple) of combinations over lists that do or do not share prefixes.      *)
(* A machine builds a combination out of earlier ones, step by step.         *)
(***************************************************************************)
EXTENDS Construct, Json
VARIABLES lt, ln, ls
Lists == { <<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 2, 3>> }
Cs == {-1, 0, 2}
Xs == <<1, 10, 100>>
\* lt: the current term; ln: expected value; ls: steps left
LInit == \E f \in Lists : \E c \in [1..Len(f) -> Cs] :
            /\ lt = Node(c, [k \in 1..Len(f) |-> Leaf(f[k])])
            /\ ln = IntVal(lt, Xs)
            /\ ls = 2
LNext == /\ ls > 0 /\ ls' = ls - 1
         /\ \E a \in {-1, 2}, b \in {1, 3} :
              \E other \in {Node(c, [k \in 1..Len(f) |-> Leaf(f[k])]) : f \in Lists, c \in {<<1, -1, 2>>}} \cup {Leaf(3)} :
                 LET o == IF IsNode(other) THEN Node(SubSeq(other.c, 1, Len(other.t)), other.t) ELSE other
                 IN  \/ lt' = Combine(<<a, b>>, <<lt, o>>) /\ ln' = (a * ln) + (b * IntVal(o, Xs))
                     \/ lt' = Combine(<<a, b>>, <<o, lt>>) /\ ln' = (b * ln) + (a * IntVal(o, Xs))
NInit == LInit
NNext == LNext
\* values are preserved, and a flattened term has as many coefficients as functions
NInv == IntVal(lt, Xs) = ln /\ Len(lt.c) = Len(lt.t)

(* ---- plan ------------------------------------------------------------------------- *)
Job(fam) == [fam |-> fam, el |-> EP(1, 1), kind |-> "onb", tree |-> <<>>, n |-> 0, p |-> 0, s |-> "", coefs |-> <<>>]
\* trees, with coefficients in quarters (pairs: real, imaginary part)
Cf(i, salt, im) == [re |-> (HH(i, salt) % 33) - 16, im |-> IF im THEN (HH(i, salt + 7) % 17) - 8 ELSE 0]
\* (complex trees have nodes with real coefficients, too)
CN(ts, salt, im) == Node([i \in 1..Len(ts) |-> Cf(i, salt, im /\ (HH(salt, Len(ts)) % 2 = 0))], ts)
Lf(s) == [k \in 1..Len(s) |-> Leaf(s[k])]
Base3(s, im) == <<CN(Lf(<<1, 2, 3>>), s, im), CN(Lf(<<1, 2>>), s + 1, im), CN(Lf(<<1, 2, 3, 4, 5>>), s + 2, im)>>
Trees(s, im) == <<
    CN(Lf(<<1>>), s, im), CN(Lf(<<2, 1, 4>>), s, im), CN(Lf(<<1, 2, 3, 4, 5, 6>>), s, im),
    CN(Base3(s, im), s + 5, im),
    CN(<<CN(Lf(<<1, 2, 3>>), s, im)>>, s + 3, im),
    CN(<<CN(Lf(<<1>>), s, im), CN(Lf(<<1, 2, 3, 4>>), s + 4, im), CN(Lf(<<1, 2>>), s + 2, im), CN(Lf(<<1, 2, 3, 4, 5, 6>>), s + 9, im), CN(Lf(<<1>>), s + 1, im)>>, s + 6, im),
    \* inconsistent lists, of all shapes
    CN(<<CN(Lf(<<1, 2>>), s, im), CN(Lf(<<2, 1>>), s + 1, im)>>, s + 2, im),
    CN(<<CN(Lf(<<1, 2, 3>>), s, im), CN(Lf(<<1, 3>>), s + 1, im)>>, s + 2, im),
    CN(<<CN(Lf(<<1, 2>>), s, im), CN(Lf(<<3, 4>>), s + 1, im), CN(Lf(<<1, 2, 5>>), s + 4, im)>>, s + 2, im),
    CN(<<CN(Lf(<<4>>), s, im), CN(Lf(<<1, 2, 3>>), s + 1, im)>>, s + 2, im),
    \* mixed
    CN(<<Leaf(3), CN(Lf(<<1, 2>>), s, im)>>, s + 3, im),
    CN(<<CN(Lf(<<1, 2>>), s, im), Leaf(1), CN(Lf(<<1>>), s, im)>>, s + 3, im),
    \* three levels
    CN(<<CN(Base3(s, im), s + 1, im), CN(Base3(s + 2, im), s + 3, im)>>, s + 4, im),
    CN(<<CN(<<CN(Lf(<<1, 2>>), s, im), CN(Lf(<<2, 1>>), s, im)>>, s + 1, im), CN(Lf(<<1, 2>>), s, im)>>, s + 4, im),
    \* the same function twice
    CN(Lf(<<2, 2, 2>>), s, im), CN(<<CN(Lf(<<1, 1>>), s, im), CN(Lf(<<1, 1, 2>>), s + 1, im)>>, s + 2, im) >>
LinJobs == FlattenSeq([s \in 1..(IF Quick THEN 20 ELSE 150) |->
    LET A == Trees(s, FALSE)
        B == Trees(s + 50, TRUE)
    IN  [i \in 1..Len(A) |-> [Job("lin") EXCEPT !.tree = A[i], !.n = s, !.p = i, !.s = "real"]]
        \o [i \in 1..Len(B) |-> [Job("lin") EXCEPT !.tree = B[i], !.n = s, !.p = i, !.s = "complex"]]])
OrthEls == << EP(1, 0), EP(1, 1), EP(1, 4), EP(1, 8), EP(2, 1), EP(2, 2), EP(2, 4), EP(3, 1), EP(3, 2), EQ(2, 2), EQ(3, 1), ET(<< <<2, 1>>, <<1, 2>> >>) , EP(1, 14), EP(2, 6), EP(3, 3), EQ(2, 4) >>
   \o (IF Quick THEN <<>> ELSE << EP(1, 20), EP(2, 8), EP(3, 4), EQ(2, 6), EQ(3, 2) >>)
\* (square) matrices of small integers mixing the basis
Mix(n, salt) == [i \in 1..n |-> [k \in 1..n |-> IF i = k THEN 5 + (i % 3) ELSE (HH((i * 31) + k, salt) % 3) - 1]]
OrthJobs == Cat2(Filter(Cat2(OrthEls, <<"plain", "real", "complex", "nested", "monomials">>, LAMBDA el, s : <<el, s>>), LAMBDA x : ~(x[2] = "monomials" /\ x[1] \in {EP(1, 20), EP(2, 8)})), <<0>>, LAMBDA x, z : LET el == x[1]
        s == x[2] IN
     [Job("orth") EXCEPT !.el = el, !.s = s, !.kind = IF s = "monomials" THEN "mono" ELSE "onb", !.coefs = Mix(SpaceDim(el.fs), 5)])
VREls == << EP(1, 0), EP(2, 0), EP(1, 1), EP(1, 2), EP(1, 3), EP(1, 7), EP(1, 12), EP(2, 1), EP(2, 2), EP(2, 3), EP(2, 4), EQ(2, 1), EQ(2, 2), EQ(2, 3) , EP(1, 20), EP(2, 5), EQ(2, 4) >>
   \o (IF Quick THEN <<>> ELSE << EP(1, 30), EP(2, 7), EQ(2, 6) >>)
VRJobs == Cat2(VREls, <<"onb", "rotated", "unitary">>, LAMBDA el, s : [Job("vr") EXCEPT !.el = el, !.s = s])
WEls == << EP(1, 0), EP(1, 1), EP(1, 3), EP(1, 6), EP(2, 1), EP(2, 3), EP(3, 2), EQ(2, 2), ET(<< <<2, 1>>, <<1, 1>> >>), EQ(3, 1) >> \o (IF Quick THEN <<>> ELSE << EP(1, 2), EP(1, 9), EP(1, 12), EP(2, 2), EP(2, 5), EP(3, 1), EP(3, 3), EQ(2, 1), EQ(2, 3), ET(<< <<1, 2>>, <<2, 2>> >>) >>)
Ratios == <<"square", "over", "under">>
WJobs == Cat2(Cat2(WEls, Ratios, LAMBDA el, r : <<el, r>>), <<1, 2, 3>>, LAMBDA x, p :
            [Job("wts") EXCEPT !.el = x[1], !.s = x[2], !.p = p, !.kind = IF p = 2 THEN "mono" ELSE "onb",
                               !.coefs = [i \in 1..1 |-> [k \in 1..SpaceDim(x[1].fs) |-> (HH(k, p) % 65) - 32]]])
\* (three points are in special position for quadrics: the Jacobian is rank deficient)
RJobs == Filter(Cat2(Cat2(WEls, <<"res", "gn">>, LAMBDA el, f : <<el, f>>), Cat2(<<1, 2, 3, 7, 12>>, <<"onb", "mono">>, LAMBDA n, k : <<n, k>>), LAMBDA x, p :
            [Job(x[2]) EXCEPT !.el = x[1], !.n = p[1], !.kind = p[2], !.coefs = [i \in 1..1 |-> [k \in 1..SpaceDim(x[1].fs) |-> (HH(k, p[1]) % 65) - 32]]]), LAMBDA j : ~(j.fam = "gn" /\ j.el = EP(3, 2) /\ j.n = 3))
\* integrands of very different sizes: factors 2^-26 .. 2^26
Scl(n, p) == [k \in 1..n |-> CASE p = 4 -> -((7 * k) % 27) [] p = 5 -> (5 * k) % 23 [] p = 6 -> -20 [] p = 7 -> ((11 * k) % 27) - 13 [] OTHER -> 26]
Scaled(j, p) == [j EXCEPT !.p = p, !.coefs = <<@[1], Scl(Len(@[1]), p)>>]
SWJobs == Cat2(Filter(WJobs, LAMBDA j : j.p = 1 /\ j.s # "over"), <<4, 5, 6, 7, 8>>, Scaled)
SRJobs == Cat2(Filter(RJobs, LAMBDA j : j.fam = "res" \/ (1 + FoldLeft(LAMBDA a, f : a + f[1], 0, j.el.fs)) * j.n > SpaceDim(j.el.fs)), <<4, 5, 7>>, Scaled)
ItJobs == [i \in 1..Len(WEls) |-> [Job("iter") EXCEPT !.el = WEls[i]]]
       \o [n \in 1..8 |-> [Job("iter") EXCEPT !.el = EP(1, (2 * n) - 1), !.n = n]]
ErrJobs == Cat2(WEls, <<"refs-", "refs+", "axes-", "axes+", "derivs", "coefs", "dependent">>, LAMBDA el, s : [Job("err") EXCEPT !.el = el, !.s = s])
Plan == LinJobs \o OrthJobs \o VRJobs \o WJobs \o RJobs \o SWJobs \o SRJobs \o ItJobs \o ErrJobs
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
