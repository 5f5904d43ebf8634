-------------------------------- MODULE C18MC --------------------------------
(***************************************************************************)
(* Every map of the specification is odd, fixes -1, 0, 1, is increasing and *)
(* its derivative is the limit of its difference quotients.                 *)
(***************************************************************************)
EXTENDS Transplant, Json
VARIABLES tm, tv
M(m, a, b) == [m |-> m, p |-> <<a, b>>]
Sausages == <<1, 3, 5, 7, 9, 11, 13, 15, 17, 25, 41>> \o (IF Quick THEN <<>> ELSE [k \in 1..9 |-> 17 + (2 * k)] \o <<51, 75, 101>>)
Alphas == << <<1, 1>>, <<1, 10>>, <<3, 2>>, <<15, 4>>, <<255, 8>>, <<65535, 16>>, <<1, 20>>, <<1, 3>>, <<7, 3>>, <<1023, 10>> >> \o (IF Quick THEN <<>> ELSE [k \in 1..14 |-> <<k, 4>>])
Rhos == << <<129, 7>>, <<17, 4>>, <<9, 3>>, <<5, 2>>, <<22, 4>>, <<3, 1>>, <<2, 0>>, <<5, 0>>, <<10, 0>>, <<100, 0>>, <<1025, 10>>, <<65, 6>>, <<33, 5>>, <<37, 5>>, <<11, 3>>, <<13, 3>>, <<7, 2>>, <<3, 0>>, <<30, 0>>, <<1000, 0>> >>
        \o (IF Quick THEN <<>> ELSE Force([k \in 1..60 |-> <<33 + (2 * k), 5>>]))
StripRhos == << <<134, 7>> >> \o Filter(Rhos, LAMBDA r : r # <<1025, 10>>) \o << <<1000, 0>> >>
Maps == <<M("identity", 0, 0)>> \o [i \in 1..Len(Sausages) |-> M("sausage", Sausages[i], 0)]
     \o [i \in 1..Len(Alphas) |-> M("kte-alpha", Alphas[i][1], Alphas[i][2])]
     \o [i \in 1..Len(Rhos) |-> M("kte-rho", Rhos[i][1], Rhos[i][2])]
     \o [i \in 1..Len(StripRhos) |-> M("strip", StripRhos[i][1], StripRhos[i][2])]
Grid == Force([k \in 1..33 |-> FxQ(k - 17, 16)])
HStep == FxEps(50)
MapOK(m) ==
    LET g == MapOf(m, Grid)
        inner == SubSeq(Grid, 2, 32)
        up == MapOf(m, Force([i \in 1..31 |-> BAdd(inner[i], HStep)]))
        dn == MapOf(m, Force([i \in 1..31 |-> BSub(inner[i], HStep)]))
        tol == FxEps(70)
    IN  /\ FxNear(g[1][1], FxInt(-1), tol) /\ FxNear(g[1][17], BZero, tol) /\ FxNear(g[1][33], FxOne, tol)
        /\ \A i \in 1..33 : FxNear(g[1][i], BNeg(g[1][34 - i]), tol) /\ FxNear(g[2][i], g[2][34 - i], FxMul(tol, BAdd(FxOne, BAbs(g[2][i]))))
        /\ \A i \in 1..32 : BLt(g[1][i], g[1][i + 1])
        /\ \A i \in 2..32 : BLt(BZero, g[2][i])
        \* the two descriptions of the strip map agree
        /\ (m.m = "strip" /\ BLt(FxQ(17, 16), Dy(m.p)) /\ BLt(Dy(m.p), FxInt(4))) =>
              LET a == Strip(Dy(m.p), inner)
                  b == StripN(Dy(m.p), inner)
              IN  \A i \in 1..31 : FxNear(a[1][i], b[1][i], FxEps(60)) /\ FxNear(a[2][i], b[2][i], FxEps(60))
        /\ \A i \in 1..31 : FxClose(FxDiv(BSub(up[1][i], dn[1][i]), BShl(HStep, 1)), g[2][i + 1], FxEps(60))
NInit == tm \in {Maps[i] : i \in DOMAIN Maps} /\ tv = "todo"
NNext == tv = "todo" /\ tv' = (IF MapOK(tm) THEN "ok" ELSE "bad") /\ UNCHANGED tm
NInv == tv # "bad"

(* ---- plan --------------------------------------------------------------------- *)
Job(fam, m, base, n, par) == [fam |-> fam, m |-> m, base |-> base, n |-> n, par |-> par]
MapJobs == Cat2(Maps, <<"vector", "empty", "row", "column", "single", "reversed", "strided", "ends", "ints", "int32", "f32", "zerod", "many">>, LAMBDA m, p : Job("map", m, "", 0, p))
UserMaps == <<M("affine", 16, 0), M("affine", 4, 4), M("affine", 1, -7), M("affine", -8, 0), M("affine", 8, 0), M("cubic", 8, 0), M("cubic", 4, 0), M("cubic", 1, 0)>>
Bases == <<"lg", "lgs", "fejer1", "fejer2", "cc", "lgl", "jg", "cheb1", "kron", "trans">>
\* a transplanted rule per map and base, with and without the dimension axis
RuleJobs == FlattenSeq([i \in 1..Len(Maps) |-> FlattenSeq([b \in 1..Len(Bases) |->
     LET n == 1 + ((i + (3 * b)) % 9)
     IN  << Job("rule", Maps[i], Bases[b], n, "flat"), Job("rule", Maps[i], Bases[b], n + 3, "axis") >>])])
    \o FlattenSeq(Cat2(UserMaps, Bases \o <<"ints">>, LAMBDA m, b : << Job("rule", m, b, 2 + (m.p[1] % 5), "flat"), Job("rule", m, b, 3, "axis") >>))
    \o FlattenSeq(Cat2(Maps, <<"ints">>, LAMBDA m, b : << Job("rule", m, b, 2, "flat"), Job("rule", m, b, 3, "axis") >>))
TlgJobs == Cat2(Maps, <<0, 1, 2, 5, 12, 30>>, LAMBDA m, n : Job("tlg", m, IF n % 2 = 0 THEN "scipy" ELSE "", n, IF n \in {2, 5, 30} THEN "flat" ELSE "axis"))
BadMaps == [i \in 1..8 |-> M("sausage", <<0, 2, 4, 100, -1, -3, -2, 6>>[i], 0)]
        \o [i \in 1..8 |-> M("kte-alpha", <<0, 1, -1, 2, -1, 0, 1, 1025>>[i], <<0, 0, 1, 0, -1, -2, -1, 10>>[i])]
        \o Cat2(<<"kte-rho", "strip">>, << <<1, 0>>, <<0, 0>>, <<-2, 0>>, <<1, 1>>, <<-1, -1>>, <<1, -1>>, <<0, -2>>, <<1023, 10>> >>, LAMBDA m, p : M(m, p[1], p[2]))
BadJobs == Cat2(BadMaps, <<"lg", "fejer1">>, LAMBDA m, b : Job("bad", m, b, 5, "axis"))
        \o Cat2(Maps, <<"2d", "simplex", "zero", "3d">>, LAMBDA m, b : Job("bad", m, b, 3, "base"))
        \o Cat2(Filter(Maps, LAMBDA m : m.m = "strip"), <<"cc", "lgl">>, LAMBDA m, b : Job("bad", m, b, 3, "axis"))
Plan == MapJobs \o Filter(RuleJobs, LAMBDA j : ~(j.m.m = "strip" /\ j.base \in {"cc", "lgl", "ints"})) \o TlgJobs \o BadJobs
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
