------------------------------ MODULE C17Trace ------------------------------
(***************************************************************************)
(* Recorded pairs against the pairs of the specification, and integrals of *)
(* scalar, vector, matrix valued functions as weighted sums of the values. *)
(***************************************************************************)
EXTENDS Kron, Judge
NodeTol == FxEps(46)
Half(u, n) == Force([i \in 1..(n + 1) |-> u[i]])
\* nodes x <= 0 only: all, their weights, the Gauss weights of every second one
PairOK(e, n, R) ==
    Failing(<< <<"nodes", VxNear(VHex(e.x), Half(R.x, n), NodeTol)>>,
               <<"Kronrod weights", VxNear(VHex(e.w), Half(R.w, n), NodeTol)>>,
               <<"Gauss weights", VxNear(VHex(e.gw), Force([i \in 1..((n + 1) \div 2) |-> R.g[2 * i]]), NodeTol)>>,
               <<"repeatable", e.again>> >>)
GaussOnly(u, n) == Force([i \in 1..n |-> u[2 * i]])
AddedOnly(u, n) == Force([i \in 1..(n + 1) |-> u[(2 * i) - 1]])
GaussOK(e, n, R) ==
    Failing(<< <<"nodes", VxNear(VHex(e.x), GaussOnly(R.x, n), NodeTol)>>,
               <<"weights", VxNear(VHex(e.w), GaussOnly(R.g, n), NodeTol)>> >>)
QuadOK(e, n, R) ==
    Failing(<< <<"embedded nodes", VxNear(VHex(e.gx), GaussOnly(R.x, n), NodeTol)>>,
               <<"embedded weights", VxNear(VHex(e.gw), GaussOnly(R.g, n), NodeTol)>>,
               <<"added nodes", VxNear(VHex(e.x), AddedOnly(R.x, n), NodeTol)>>,
               <<"weights of added nodes", VxNear(VHex(e.w), AddedOnly(R.w, n), NodeTol)>>,
               <<"weights of Gauss nodes", VxNear(VHex(e.wg), GaussOnly(R.w, n), NodeTol)>>,
               <<"declared degree", e.exact_to = (3 * n) + 1>>,
               <<"declared degree of the embedded rule", e.gexact_to = (2 * n) - 1>>,
               <<"dimension", e.dim = 1 /\ e.gdim = 1>> >>)
\* sum_i w_i f_c(x_i), the function values as recorded
WSum(w, F) == FxDot(w, F)
Mag(w, F) == FxDot(Force([i \in 1..Len(w) |-> BAbs(w[i])]), Force([i \in 1..Len(w) |-> BAbs(F[i])]))
PolyInt(c) == FxSum(Force([k \in 1..Len(c) |-> IF k % 2 = 1 THEN FxQ(2 * c[k], k) ELSE BZero]))
IntV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE LET w == VHex(e.w)
             m == Len(e.F)
             Fr == Force([c \in 1..m |-> VHex(e.F[c])])
             Fi == Force([c \in 1..m |-> VHex(e.G[c])])
             r == VHex(e.re)
             i == VHex(e.im)
             j == e.job
         IN  IF e.shape # j.shp THEN <<"shape">>
             ELSE Failing(<< <<"weighted sum", \A c \in 1..m :
                       /\ FxNear(r[c], WSum(w, Fr[c]), FxMul(FxEps(46), BAdd(FxOne, Mag(w, Fr[c]))))
                       /\ FxNear(i[c], WSum(w, Fi[c]), FxMul(FxEps(46), BAdd(FxOne, Mag(w, Fi[c]))))>>,
                   <<"exact", (j.rule \in {"kron", "gauss", "lg", "cc"}) =>
                        \A c \in 1..m : FxNear(r[c], PolyInt(j.coefs[c]), FxMul(FxEps(42), BAdd(FxOne, Mag(w, Fr[c]))))>> >>)
PairVerdict(e) ==
    LET n == e.job.n
    IN  IF e.job.fam = "int" THEN IntV(e)
        ELSE IF n < 1 THEN (IF e.cls = "exc" /\ \E k \in DOMAIN e.exc : e.exc[k] = "ValueError" THEN <<>> ELSE <<"rejected">>)
        ELSE IF e.cls # "ok" THEN <<"available">>
        ELSE LET R == KRule(n)
             IN  CASE e.job.fam = "pair" -> PairOK(e, n, R)
                   [] e.job.fam = "gauss" -> GaussOK(e, n, R)
                   [] OTHER -> QuadOK(e, n, R)
=============================================================================
