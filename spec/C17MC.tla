-------------------------------- MODULE C17MC --------------------------------
(***************************************************************************)
(* The specified pairs are checked to be Gauss-Kronrod pairs: interlacing, *)
(* symmetric, positive, with the promised degrees of exactness.            *)
(***************************************************************************)
EXTENDS Kron, Json
VARIABLES kn, kv
KMax == IF Quick THEN 40 ELSE 100
NInit == kn \in 1..KMax /\ kv = "todo"
NNext == kv = "todo" /\ kv' = (IF KRuleOK(kn, KRule(kn)) THEN "ok" ELSE "bad") /\ UNCHANGED kn
NInv == kv # "bad"
Job(fam, n) == [fam |-> fam, n |-> n, rule |-> "", shp |-> <<>>, typ |-> "", coefs |-> <<>>]
Ns == RG(1, IF Quick THEN 40 ELSE 100) \o (IF Quick THEN <<61, 64, 100>> ELSE <<127, 128, 150>>)
\* integrands: component c is the polynomial with coefficients coefs[c] (in x, or in the
\* first coordinate), the value has shape shp in front of the node axis
ProdOf(s) == FoldLeft(LAMBDA a, x : a * x, 1, s)
Coefs(shp, deg, salt) == [c \in 1..ProdOf(shp) |-> [k \in 1..(deg + 1) |-> (HH(k, salt + c) % 19) - 9]]
IJob(rule, n, shp, typ, deg) == [fam |-> "int", n |-> n, rule |-> rule, shp |-> shp, typ |-> typ, coefs |-> Coefs(shp, deg, n)]
Shapes == << <<>>, <<1>>, <<3>>, <<2, 2>>, <<1, 4>>, <<3, 1>>, <<3, 2>>, <<2, 3, 2>>, <<4, 4>> >>
Types == <<"float", "complex", "int">>
INs == <<1, 2, 3, 4, 5, 8, 11>>
IntJobs == FlattenSeq([i \in 1..Len(INs) |-> FlattenSeq([s \in 1..Len(Shapes) |->
     LET n == INs[i]
         S == Shapes[s]
     IN  << IJob("kron", n, S, Types[1 + (s % 2)], (3 * n) + 1), IJob("gauss", n, S, Types[1 + (s % 2)], (2 * n) - 1),
            IJob("kron", n, S, "int", 0), IJob("gauss", n, S, "int", 0) >>])])
   \o Cat2(<<"lg", "cc", "fejer1", "cheb", "zero">>, Shapes, LAMBDA r, S : IJob(r, 4, S, "float", 2))
   \o Cat2(<<"xg2", "gm3", "lgtp2", "vr3", "wv2">>, Shapes, LAMBDA r, S : IJob(r, 3, S, "complex", 2))
   \o Cat2(<<"lg", "xg2", "zero">>, Shapes, LAMBDA r, S : IJob(r, 2, S, "int", 0))
Plan == FlattenSeq([i \in 1..Len(Ns) |-> << Job("pair", Ns[i]), Job("gauss", Ns[i]), Job("quad", Ns[i]) >>])
     \o Cat2(<<"pair", "gauss", "quad">>, <<0, -1, -7>>, Job)
     \o IntJobs
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
