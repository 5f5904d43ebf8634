------------------------------- MODULE Guards -------------------------------
(***************************************************************************)
(* What is accepted and what is rejected.                                   *)
(* Spaces and shapes are terms: a leaf <<"s", d>> (simplex with P^N), a      *)
(* product <<"t", parts>> (nested products flatten, a product of one factor  *)
(* is that factor), or <<"x", k>> (anything else).  A function dispatching   *)
(* on a space and a shape serves exactly the pairs that agree structurally.  *)
(***************************************************************************)
EXTENDS Elem
Leaf(d) == [t |-> "s", d |-> d, parts |-> <<>>]
Prod(parts) == [t |-> "t", d |-> 0, parts |-> parts]
Other(k) == [t |-> "x", d |-> k, parts |-> <<>>]
RECURSIVE Flat(_)
Flat(x) == IF x.t = "s" THEN <<x.d>> ELSE FlattenSeq([i \in 1..Len(x.parts) |-> Flat(x.parts[i])])
Kind(x) == IF x.t = "x" THEN "other" ELSE IF x.t = "t" /\ Len(Flat(x)) # 1 THEN "product" ELSE "simplex"
SumSeq(f) == FoldLeft(LAMBDA a, b : a + b, 0, f)
\* a product shape has at most one factor that is not a segment
ShapeOK(x) == x.t # "t" \/ Len(Flat(x)) = 1 \/ Len(SelectSeq(Flat(x), LAMBDA d : d # 1)) <= 1
Match(s, h) == Kind(s) # "other" /\ Kind(s) = Kind(h) /\ Flat(s) = Flat(h)
\* the class of the rejection, as in the documentation of the dispatching functions
Expect2(s, h) == IF Match(s, h) THEN "ok"
                 ELSE IF Kind(s) = "other" \/ Kind(h) = "other" \/ Kind(s) # Kind(h) THEN "NotImplementedError"
                 ELSE "ValueError"

(* ---- the dispatch, stage by stage; a dispatcher may lack some stages --------- *)
Stages == <<"type", "kind", "total", "number", "factors">>
DimOf(x) == SumSeq(Flat(x))
Passes(st, s, h) ==
    CASE st = "type" -> Kind(s) # "other" /\ Kind(h) # "other"
      [] st = "kind" -> Kind(s) = Kind(h)
      [] st = "total" -> DimOf(s) = DimOf(h)
      [] st = "number" -> Len(Flat(s)) = Len(Flat(h))
      [] OTHER -> \A k \in 1..(IF Len(Flat(s)) < Len(Flat(h)) THEN Len(Flat(s)) ELSE Len(Flat(h))) : Flat(s)[k] = Flat(h)[k]
StageClass(st) == IF st \in {"type", "kind"} THEN "NotImplementedError" ELSE "ValueError"
\* what a dispatcher with the stages in `has` does with the pair
RunDispatch(has, s, h) ==
    FoldLeft(LAMBDA r, st : IF r # "ok" \/ st \notin has \/ (st # "type" /\ (Kind(s) = "other" \/ Kind(h) = "other")) THEN r
                            ELSE IF Passes(st, s, h) THEN "ok" ELSE StageClass(st), "ok", Stages)
\* stages without which some pair is served, or rejected as something else, ("total" is implied by the later ones)
Needed == {"type", "kind", "number", "factors"}

(* ---- parameters: [c, a, s, k]: class, integers, a string, expected outcome ------ *)
PJ(c, a, s, k) == [kind |-> "param", c |-> c, a |-> a, s |-> s, want |-> k]
V == "ValueError"
NI == "NotImplementedError"
QU == "QuadratureRuleUnavailable"
ANY == "any"
OKW == "ok"
In(n, lo, hi) == lo <= n /\ n <= hi
Odd(n) == n % 2 = 1
\* tabulated rules
Tabulated(f, d, n) ==
    CASE f = "xg" -> (d = 2 /\ In(n, 1, 50)) \/ (d = 3 /\ In(n, 1, 15))
      [] f = "vr" -> (d = 2 /\ In(n, 0, 20)) \/ (d = 3 /\ In(n, 0, 10))
      [] f = "js" -> (d = 3 /\ In(n, 0, 19))
      [] OTHER -> (d = 2 /\ In(n, 1, 21)) \/ (d = 3 /\ In(n, 1, 11))
TabJobs == FlattenSeq([k \in 1..4 |-> Cat2(RG(-1, 5), RG(-2, 53), LAMBDA d, n :
              LET f == <<"xg", "vr", "js", "wv">>[k]
              IN  IF f = "wv" /\ n > 0 /\ ~Odd(n) THEN PJ("free", <<>>, "", OKW)
                  ELSE PJ("tab", <<d, n>>, f, IF Tabulated(f, d, n) THEN OKW ELSE QU))])
WantIf(b, w) == IF b THEN OKW ELSE w
Backends == <<"builtin", "scipy", "", "Builtin", "numpy", "scipy ", "default">>
RuleJobs ==
    TabJobs
    \o Cat2(RG(-7, 3), RG(-7, 3), LAMBDA x, y :
            IF x > -4 /\ y > -4 /\ x + y = -4 /\ x # -2 THEN PJ("free", <<>>, "", OKW)
            ELSE PJ("jg", <<x, y, 2>>, "builtin", IF x <= -4 \/ y <= -4 THEN ANY ELSE OKW))
    \o Cat2(<<"jg", "lg", "cheb", "geg", "jgl", "lgl", "jgln", "lgln", "lgtp", "lgltp">>, Backends, LAMBDA f, b : PJ("backend", <<>>, f \o ":" \o b, WantIf(b \in {"builtin", "scipy"}, NI)))
    \o [i \in 1..5 |-> PJ("lgneg", <<-i>>, "", IF i = 1 THEN OKW ELSE ANY)]
    \o Cat2(<<"cheb", "fejer">>, RG(-2, 5), LAMBDA f, k : PJ(f, <<k, 4>>, "", WantIf(k \in {1, 2}, V)))
    \o Cat2(RG(-3, 6), << <<0, 0>>, <<1, 1>>, <<2, 4>>, <<-2, 0>> >>, LAMBDA n, p : PJ("jgl", <<p[1], p[2], n>>, "", WantIf(n >= 1, V)))
    \o [i \in 1..8 |-> PJ("lgl", <<i - 4>>, "", WantIf(i - 4 >= 1, V))]
    \o [i \in 1..8 |-> PJ("cc", <<i - 4>>, "", WantIf(i - 4 >= 1, V))]
    \o Cat2(<<1, 2>>, RG(-3, 6), LAMBDA k, n : PJ("fejer", <<k, n>>, "", WantIf(n >= k, V)))
    \o Cat2(<<"gauss", "kronrod", "make_kronrod">>, RG(-3, 6), LAMBDA f, n : PJ("kron", <<n>>, f, WantIf(n >= 1, V)))
    \o [i \in 1..5 |-> PJ("quadgk", <<i - 1>>, "", WantIf(i - 1 >= 2, V))]
    \o Cat2(<<"nan", "inf", "-inf", "none">>, <<0, 1, 2, 3>>, LAMBDA f, w : PJ("quadgkval", <<w>>, f, WantIf(f = "none", V)))
    \o Cat2(RG(-3, 3), RG(-3, 3), LAMBDA l, r : PJ("interval", <<l, r>>, "", WantIf(r > l, V)))
    \o [i \in 1..12 |-> PJ("kterho", <<i - 3>>, "", WantIf(i - 3 > 4, V))]
    \o [i \in 1..9 |-> PJ("ktealpha", <<i - 3>>, "", WantIf(In(i - 3, 1, 3), V))]
    \o Cat2(<<"kterho", "ktealpha", "striprho">>, <<"nan", "inf">>, LAMBDA f, s :
            IF f = "ktealpha" THEN PJ(f, <<0>>, s, V) ELSE PJ("free", <<>>, "", OKW))
    \o [i \in 1..15 |-> PJ("sausage", <<i - 6>>, "", WantIf(i - 6 >= 1 /\ Odd(i - 6), V))]
    \o [i \in 1..12 |-> PJ("striprho", <<i - 3>>, "", WantIf(i - 3 > 4, V))]
    \o [i \in 1..9 |-> PJ("stripnode", <<i - 5>>, "", WantIf(In(i - 5, -3, 3), V))]
    \o Cat2(<<"lg", "lgdim", "lg2", "tri", "zero", "tet">>, <<0, 1, 2, 3>>, LAMBDA q, m :
            PJ("transplant", <<m>>, q, WantIf(q \in {"lg", "lgdim"}, V)))
    \o Cat2(<<"plain", "lg", "vr0", "sausage", "tp", "tpmissing", "kron", "xg">>, <<0>>, LAMBDA f, z :
            PJ("exactto", <<>>, f, IF f \in {"plain", "sausage", "tpmissing"} THEN "AttributeError" ELSE OKW))
NodeJobs ==
    Cat2(RG(-1, 6), RG(0, 4), LAMBDA d, n : IF n = 0 /\ d > 3 THEN PJ("free", <<>>, "", OKW) ELSE PJ("wab", <<d, n>>, "", IF d = -1 THEN ANY ELSE WantIf(In(d, 0, 3), NI)))
    \o Cat2(<<"equi1", "equi2", "equi3", "wab2", "wab3", "wab_2d", "wab_3d">>, Cat2(RG(1, 5), RG(-2, 2), LAMBDA n, k : <<n, k>>),
            LAMBDA f, x : PJ("tuples", x, f, WantIf(x[2] = 0, V)))
    \o [i \in 1..8 |-> PJ("tpnodes", <<i - 1>>, "", WantIf((i - 1) \in {2, 3, 4, 5}, V))]
    \o Cat2(RG(0, 5), RG(0, 3), LAMBDA d, n : PJ("equi", <<d, n>>, "", OKW))
    \o Cat2(RG(0, 5), RG(0, 3), LAMBDA d, n : PJ("random", <<d, n>>, "", OKW))
OtherTypes == RG(1, 9)
ShapeFns == <<"space_for_shape", "unit_vertices_for_shape", "faces_for_shape", "submesh_for_shape", "random_nodes_for_shape">>
SpaceFns == <<"quadrature_for_space", "basis_for_space", "orthonormal_basis_for_space", "monomial_basis_for_space",
              "equispaced_nodes_for_space", "edge_clustered_nodes_for_space">>
ShapeJobs ==
    Cat2(<<"S", "H">>, RG(0, 5), LAMBDA k, d : PJ("faces", <<d>>, k, WantIf(In(d, 1, 3), ANY)))
    \o Cat2(<<"S", "H">>, RG(0, 5), LAMBDA k, d : PJ("submesh", <<d>>, k, WantIf(k = "H" \/ In(d, 1, 3), NI)))
    \o Cat2(<<"S", "H">>, RG(0, 4), LAMBDA k, d : PJ("verts", <<d>>, k, OKW))
    \o Cat2(ShapeFns, OtherTypes, LAMBDA f, x : PJ("othershape", <<x>>, f, NI))
    \o Cat2(<<"node_tuples_for_space">>, OtherTypes, LAMBDA f, x : PJ("otherspace", <<x>>, f, NI))
    \o Cat2(<<"faces_for_shape">>, << <<1, 2>>, <<2, 1>>, <<0, 1>>, <<3, 1>>, <<1, 1, 2>> >>, LAMBDA f, p : PJ("prismfaces", p, f, NI))
    \o Cat2(<<"S", "H">>, Cat2(RG(1, 3), RG(-1, 2), LAMBDA d, k : <<d, k>>), LAMBDA f, x :
            PJ("facemap", x, f, WantIf(x[2] = 0, V)))
    \o FlattenSeq([n \in 1..4 |-> Cat2(RG(0, 3), <<0>>, LAMBDA a, z : PJ("shapeof", [i \in 1..n |-> IF i = 1 THEN a ELSE 1], "", OKW))])
    \o Cat2(<<0, 2, 3>>, <<0, 2, 3>>, LAMBDA a, b : PJ("shapeof", <<a, b>>, "", NI))
    \o Cat2(<<0, 2, 3>>, <<0, 2, 3>>, LAMBDA a, b : PJ("shapeof", <<a, 1, b>>, "", NI))
    \* one order, or one order for each factor of a product
    \o Cat2(RG(0, 3), <<"int", "tuple1", "tupled", "float", "str", "none">>, LAMBDA d, o : PJ("orderS", <<d>>, o, WantIf(o = "int", ANY)))
    \o Cat2(RG(2, 4), RG(0, 6), LAMBDA d, k : PJ("orderH", <<d, k>>, "", WantIf(k = d, V)))
    \o Cat2(RG(1, 3), <<"mixed", "equal", "PN">>, LAMBDA d, o : PJ("spaceorder", <<d>>, o, IF o = "mixed" /\ d > 1 THEN "AttributeError" ELSE OKW))
MatFns == <<"resampling", "resampling_lsq", "differentiation", "diff", "nodal_quad_mass", "mass", "inverse_mass",
            "bilinear_in", "bilinear_out", "test_matrix", "face_mass", "quad_face_mass">>
MatJobs ==
    Cat2(MatFns, Cat2(RG(1, 3), Cat2(RG(0, 3), RG(-2, 2), LAMBDA n, k : <<n, k>>), LAMBDA d, x : <<d>> \o x), LAMBDA f, x :
         IF f = "resampling_lsq" \/ (x[3] < 0 /\ x[2] = 0) \/ (f \in {"face_mass", "quad_face_mass"} /\ x[1] = 1) THEN PJ("free", <<>>, "", OKW)
         ELSE PJ("mat", x, f, WantIf(x[3] = 0, IF f = "resampling" THEN "RuntimeError" ELSE V)))
    \o Cat2(RG(1, 3), RG(1, 3), LAMBDA d, n : PJ("mat", <<d, n, 1>>, "resampling_lsq", OKW))
    \o Cat2(<<"mass", "inverse_mass">>, Cat2(RG(1, 3), RG(1, 3), LAMBDA d, n : <<d, n>>), LAMBDA f, x : PJ("monomass", x, f, NI))
    \o Cat2(<<"P", "Q">>, Cat2(RG(0, 3), <<"ortho", "mono">>, LAMBDA d, b : <<d, b>>), LAMBDA f, x :
            PJ("weight", <<x[1]>>, f \o x[2], WantIf(x[2] = "ortho" \/ (f = "Q" /\ x[1] = 0), "BasisNotOrthonormal")))
    \o Cat2(<<"lg", "xg", "zero", "tp", "tp1", "tptri", "tptri2">>, <<0>>, LAMBDA q, z : PJ("specdiag", <<>>, q, WantIf(q \in {"tp", "tp1"}, V)))
    \o Cat2(RG(-3, 3), RG(-3, 3), LAMBDA k, l : PJ("construct", <<k, l>>, "weights", WantIf(k = 0, V)))
    \o Cat2(RG(-2, 2), RG(-2, 2), LAMBDA k, l : PJ("construct", <<k, l>>, "residual", WantIf(k = 0 /\ l = 0, V)))
ToolJobs ==
    Cat2(RG(-7, 7), RG(0, 3), LAMBDA ax, at : PJ("reshape", <<ax, at>>, "Q", WantIf((ax = at \/ ax = at - 4) /\ In(at, 0, 3), V)))
    \o Cat2(RG(-6, 6), RG(0, 3), LAMBDA ax, at : PJ("unreshape", <<ax, at>>, "Q", WantIf(ax = at \/ ax = at - 4, V)))
    \o Cat2(RG(-7, 7), RG(0, 3), LAMBDA ax, at : PJ("reshape", <<ax, at>>, "P", OKW))
    \o Cat2(RG(1, 3), RG(0, 4), LAMBDA d, r : PJ("lebesgue", <<d, r>>, "S", WantIf(d = r, V)))
    \o Cat2(RG(2, 3), RG(0, 4), LAMBDA d, r : PJ("lebesgue", <<d, r>>, "H", WantIf(d = r, V)))
    \o Cat2(RG(1, 3), RG(-2, 2), LAMBDA d, k : IF d = 1 /\ k = -2 THEN PJ("free", <<>>, "", OKW) ELSE PJ("decay", <<d, k>>, "", WantIf(k = 0, ANY)))
    \o Cat2(RG(1, 7), <<0>>, LAMBDA x, z : PJ("degvec", <<x>>, "", IF x <= 2 THEN OKW ELSE "TypeError"))
    \* functions take points with as many rows as dimensions
    \o Cat2(<<"ortho", "mono", "grad", "gradmono", "tp", "tpgrad", "prism", "prismgrad", "monomial", "diffmono", "gradmonof">>,
            Cat2(RG(1, 4), RG(0, 5), LAMBDA d, r : <<d, r>>), LAMBDA f, x :
            IF f \in {"ortho", "grad"} /\ x[1] = 4 THEN PJ("rows", x, f, NI)
            ELSE IF (f \in {"tp", "tpgrad", "prism", "prismgrad"} /\ x[1] = 1) \/ (f \in {"prism", "prismgrad"} /\ x[1] > 3) THEN PJ("free", <<>>, "", OKW)
            ELSE PJ("rows", x, f, WantIf(x[1] = x[2], ANY)))
    \o Cat2(RG(1, 3), RG(0, 4), LAMBDA d, r : PJ("affine", <<d, r>>, "", WantIf(d = r, ANY)))
Jobs == SelectSeq(RuleJobs \o NodeJobs \o ShapeJobs \o MatJobs \o ToolJobs, LAMBDA j : j.c # "free")
=============================================================================
