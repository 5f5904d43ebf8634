-------------------------------- MODULE C20MC --------------------------------
(***************************************************************************)
(* Three machines: words of affine generators (the composed map, its        *)
(* inverse and determinant), walks on the barycentric lattice, and          *)
(* monomials differentiated step by step (with Stokes' theorem).            *)
(***************************************************************************)
EXTENDS Maps, Json
VARIABLES tk, ts, tv
(* ---- affine words: in d = 2, 3; entries are small integers ---------------- *)
Id(d) == [i \in 1..d |-> [k \in 1..d |-> IF i = k THEN 1 ELSE 0]]
Gens(d) == << [a |-> [Id(d) EXCEPT ![1][2] = 1], b |-> [i \in 1..d |-> 0], det |-> 1],
              [a |-> [Id(d) EXCEPT ![d][1] = -2], b |-> [i \in 1..d |-> i], det |-> 1],
              [a |-> [Id(d) EXCEPT ![1][1] = 2], b |-> [i \in 1..d |-> -1], det |-> 2],
              [a |-> [Id(d) EXCEPT ![1] = Id(d)[2], ![2] = Id(d)[1]], b |-> [i \in 1..d |-> 0], det |-> -1] >>
IMM(A, B) == [i \in 1..Len(A) |-> [k \in 1..Len(A) |-> FoldLeft(LAMBDA s, j : s + (A[i][j] * B[j][k]), 0, RG(1, Len(A)))]]
IMV(A, u) == [i \in 1..Len(A) |-> FoldLeft(LAMBDA s, j : s + (A[i][j] * u[j]), 0, RG(1, Len(A)))]
\* g after f
IComp(g, f) == [a |-> IMM(g.a, f.a), b |-> [i \in 1..Len(f.b) |-> IMV(g.a, f.b)[i] + g.b[i]], det |-> g.det * f.det]
FxM(A) == Force([i \in 1..Len(A) |-> Force([k \in 1..Len(A[1]) |-> FxInt(A[i][k])])])
FxV(u) == Force([i \in 1..Len(u) |-> FxInt(u[i])])
MaxWord == IF Quick THEN 4 ELSE 6
\* ts = <<map, inverse as a composition of inverse generators (fixed point), word length>>
GInv(g) == AffInv(FxM(g.a), FxV(g.b))
MMul(A, B) == Force([i \in 1..Len(A) |-> Force([k \in 1..Len(A) |-> FxDot(A[i], Column(B, k))])])
FComp(g, f) == [a |-> MMul(g.a, f.a), b |-> VAdd(MV(g.a, f.b), g.b)]
AffInit == \E d \in {2, 3} : /\ tk = "affine"
              /\ ts = [m |-> [a |-> Id(d), b |-> [i \in 1..d |-> 0], det |-> 1], v |-> [a |-> FxM(Id(d)), b |-> VConst(BZero, d)], n |-> 0]
AffNext == /\ tk = "affine" /\ ts.n < MaxWord
           /\ \E k \in 1..4 : LET g == Gens(Len(ts.m.b))[k]
                              IN  ts' = [m |-> IComp(g, ts.m), v |-> FComp(ts.v, GInv(g)), n |-> ts.n + 1]
Tiny == FxEps(140)
AffOK == LET A == FxM(ts.m.a)
             B == FxV(ts.m.b)
             r == AffInv(A, B)
             d == Len(B)
             rr == AffInv(r.a, r.b)
         IN  /\ FxNear(FxDet(A), FxInt(ts.m.det), Tiny)
             /\ FxNear(FxMul(FxDet(A), FxDet(r.a)), FxOne, Tiny)
             /\ \A i \in 1..d : VxNear(r.a[i], ts.v.a[i], Tiny) /\ VxNear(rr.a[i], A[i], Tiny)
             /\ VxNear(r.b, ts.v.b, Tiny) /\ VxNear(rr.b, B, Tiny)
             /\ LET c == FComp([a |-> A, b |-> B], r)
                IN  VxNear(c.b, VConst(BZero, d), Tiny) /\ \A i \in 1..d : VxNear(c.a[i], FxV(Id(d)[i]), Tiny)
(* ---- barycentric walks: integer coordinates summing to M ------------------------ *)
M == IF Quick THEN 3 ELSE 5
BaryInit == \E d \in 1..3 : tk = "bary" /\ ts = [k \in 1..(d + 1) |-> IF k = 1 THEN M ELSE 0]
BaryNext == /\ tk = "bary"
            /\ \E i, k \in DOMAIN ts : i # k /\ ts[i] > 0 /\ ts' = [ts EXCEPT ![i] = @ - 1, ![k] = @ + 1]
BaryOK == LET d == Len(ts) - 1
              B == Force([k \in 1..(d + 1) |-> <<FxQ(ts[k], M)>>])
              U == FromBary(d, UnitVert, B, 1)
              E == FromBary(d, EquiVert, B, 1)
          IN  /\ \A k \in 1..(d + 1) : VxNear(UnitToBary(U, 1)[k], B[k], Tiny) /\ VxNear(EquiToBary(E, 1)[k], B[k], Tiny)
              /\ \A l \in 1..d : VxNear(EquiToUnit(E, 1)[l], U[l], Tiny)
              \* all edges have length 2
              /\ \A i, k \in 1..(d + 1) : i # k =>
                    FxNear(FxSum(Force([l \in 1..d |-> LET x == BSub(EquiVert(d, i, l), EquiVert(d, k, l)) IN FxMul(x, x)])), FxInt(4), Tiny)
(* ---- monomials --------------------------------------------------------------------- *)
MonoInit == \E d \in 1..3 : tk = "mono" /\ ts = [e |-> [i \in 1..d |-> 0], c |-> <<3, 4>>]
MaxE == IF Quick THEN 3 ELSE 4
MonoNext == /\ tk = "mono" /\ \E i \in DOMAIN ts.e : ts.e[i] < MaxE /\ ts' = [ts EXCEPT !.e[i] = @ + 1]
Drop(m, i) == [c |-> m.c, e |-> SubSeq(m.e, 1, i - 1) \o SubSeq(m.e, i + 1, Len(m.e))]
MonoOK == \A i \in DOMAIN ts.e :
             LET dm == MoDiff(ts, i)
                 up == [ts EXCEPT !.e[i] = @ + 1]
                 d == Len(ts.e)
             IN  \* fundamental theorem on the cube: value 1 minus value 0 of x_i
                 /\ FxNear(MoCube(dm), IF ts.e[i] = 0 THEN BZero ELSE MoCube(Drop(ts, i)), Tiny)
                 \* moments of the simplex: lowering one exponent
                 /\ FxNear(FxScale(MoSimplex(up), d + ESum(up.e), 1), FxScale(MoSimplex(ts), ts.e[i] + 1, 1), Tiny)
                 \* mixed derivatives commute
                 /\ \A k \in DOMAIN ts.e : LET p == MoDiff(dm, k)
                                               q == MoDiff(MoDiff(ts, k), i)
                                           IN p.c[1] = q.c[1] /\ (p.c[1] # 0 => p.e = q.e)
NInit == tv = 0 /\ (AffInit \/ BaryInit \/ MonoInit)
NNext == (AffNext \/ BaryNext \/ MonoNext) /\ UNCHANGED <<tk, tv>>
NInv == CASE tk = "affine" -> AffOK [] tk = "bary" -> BaryOK [] OTHER -> MonoOK

(* ---- the calls --------------------------------------------------------------------- *)
Job(fam) == [fam |-> fam, d |-> 0, den |-> 1, A |-> <<>>, b |-> <<>>, x |-> <<>>, s |-> "", e |-> <<>>, w |-> <<>>, n |-> 0, el |-> EP(1, 1)]
RM(d, salt, lim) == [i \in 1..d |-> [k \in 1..d |-> (HH((i * 17) + k, salt) % ((2 * lim) + 1)) - lim]]
RV(n, salt, lim) == [k \in 1..n |-> (HH(k + 100, salt) % ((2 * lim) + 1)) - lim]
Nonsing(A) == ~BEq(FxDet(FxM(A)), BZero) /\ BLt(FxQ(1, 2), BAbs(FxDet(FxM(A))))
Seeds == RG(1, IF Quick THEN 6 ELSE 24)
Ds == <<1, 2, 3, 4, 5, 7>>
Forms == <<"list", "array", "fortran", "float32", "tuple", "many", "intx", "manyint">>
AffJobs == LET cand == Cat2(Ds, Seeds, LAMBDA d, s : [Job("affine") EXCEPT !.d = d, !.den = <<1, 4, 8>>[1 + (s % 3)], !.A = RM(d, s, 12), !.b = RV(d, s, 20),
                              !.x = [l \in 1..d |-> RV(IF s = 3 THEN 0 ELSE 1 + (s % 5), s + l, 40)], !.s = Forms[1 + ((s + d) % 8)]])
           IN  FoldLeft(LAMBDA a, j : IF ~Nonsing(j.A) THEN a
                       ELSE Append(a, IF j.s \in {"intx", "manyint"}      \* integers as points
                                      THEN [j EXCEPT !.x = [l \in 1..j.d |-> [k \in 1..Len(j.x[l]) |-> j.den * j.x[l][k]]]] ELSE j), <<>>, cand)
\* words of generators as jobs: the maps the machine reaches, determinants of both signs and powers of two
WordMaps(d) == LET id == [a |-> Id(d), b |-> [i \in 1..d |-> i - 2], det |-> 1]
                   ext(L) == FlattenSeq([p \in 1..4 |-> [q \in 1..Len(L) |-> IComp(Gens(d)[p], L[q])]])
                   w1 == ext(<<id>>)
                   w2 == ext(w1)
               IN  <<id>> \o w1 \o w2 \o ext(w2)
WordJobs == FlattenSeq([d \in 1..2 |-> LET W == WordMaps(d + 1) IN [q \in 1..Len(W) |->
               [Job("affine") EXCEPT !.d = d + 1, !.A = W[q].a, !.b = W[q].b, !.x = [l \in 1..(d + 1) |-> RV(3, l + q, 9)], !.s = Forms[1 + (q % 8)]]]])
\* every regular two by two matrix of entries -1, 0, 1 (and with 2)
SmallM == [k \in 1..(IF Quick THEN 81 ELSE 256) |-> LET b == IF Quick THEN 3 ELSE 4
              IN  << <<((k - 1) % b) - 1, (((k - 1) \div b) % b) - 1>>, <<(((k - 1) \div (b * b)) % b) - 1, ((k - 1) \div (b * b * b)) - 1>> >>]
SmallJobs == LET R == Filter(SmallM, LAMBDA A : (A[1][1] * A[2][2]) # (A[1][2] * A[2][1]))
             IN  [q \in 1..Len(R) |-> [Job("affine") EXCEPT !.d = 2, !.A = R[q], !.b = RV(2, q, 5), !.x = [l \in 1..2 |-> RV(3, l + q, 9)], !.s = Forms[1 + (q % 8)]]]
SingJobs == [d \in 1..4 |-> [Job("singular") EXCEPT !.d = d, !.A = [RM(d, d, 9) EXCEPT ![d] = [k \in 1..d |-> 0]], !.b = RV(d, d, 5), !.x = [l \in 1..d |-> RV(3, d, 9)], !.s = "list"]]
ConvJobs == Cat2(RG(1, 7), <<"vertices", "inside", "outside", "mixed", "one", "none", "many">>, LAMBDA d, s :
               [Job("conv") EXCEPT !.d = d, !.s = s, !.den = 16,
                   !.x = [l \in 1..d |-> IF s = "none" THEN <<>> ELSE IF s = "one" THEN RV(1, l, 16)
                          ELSE IF s = "vertices" THEN [k \in 1..(d + 1) |-> IF k = l + 1 THEN 16 ELSE -16]
                          ELSE IF s = "inside" THEN [k \in 1..5 |-> -16 + (HH(k + (9 * l), d) % ((32 \div d) + 1))]
                          ELSE RV(6, l + d, IF s = "outside" THEN 100 ELSE 24)]])
Exps == << <<0>>, <<1>>, <<7>>, <<20>>, <<0, 0>>, <<1, 0>>, <<0, 3>>, <<2, 5>>, <<9, 8>>, <<0, 0, 0>>, <<1, 2, 3>>, <<4, 0, 1>>, <<0, 0, 6>>, <<5, 5, 5>>,
          <<1, 1, 1, 1>>, <<3, 0, 2, 0>>, <<0, 0, 0, 0>>, <<2, 1, 0, 1, 2>>, <<>> >>
Words == << <<>>, <<1>>, <<2>>, <<1, 1>>, <<1, 2>>, <<2, 1, 1>>, <<3, 1>>, <<1, 1, 1, 2, 2>> >>
MonoJobs == LET cand == Cat2(Exps, Words, LAMBDA e, w : [Job("mono") EXCEPT !.d = Len(e), !.e = e, !.w = w, !.n = Len(e) + Len(w),
                              !.A = <<  <<(HH(Len(e), 3 + Len(w)) % 21) - 10>> >>, !.den = <<1, 4>>[1 + (Len(w) % 2)], !.s = <<"vec", "batch", "grid">>[1 + ((Len(e) + Len(w)) % 3)],
                              !.x = [l \in 1..Len(e) |-> RV(6, l, 24)]])
            IN  Filter(cand, LAMBDA j : \A k \in DOMAIN j.w : j.w[k] <= j.d)
LebEls == << EP(1, 0), EP(2, 0), EP(3, 0), EQ(2, 0), EQ(3, 0), EP(1, 1), EP(1, 2), EP(1, 3), EP(1, 5), EP(1, 8), EP(1, 12), EP(2, 1), EP(2, 2), EP(2, 3), EP(3, 1), EP(3, 2),
             EQ(1, 2), EQ(1, 4), EQ(2, 1), EQ(2, 2), EQ(3, 1), EP(4, 1), ET(<< <<2, 1>>, <<1, 1>> >>) >>
        \o (IF Quick THEN <<>> ELSE << EP(1, 16), EP(2, 4), EP(2, 5), EP(3, 3), EQ(2, 3), EP(0, 2), EQ(0, 3), ET(<< <<1, 2>>, <<2, 2>> >>) >>)
LebJobs == Cat2(LebEls, <<"A", "E", "B", "R">>, LAMBDA el, s : [Job("lebesgue") EXCEPT !.el = el, !.s = s])
        \o FlattenSeq([i \in 1..Len(LebEls) |-> IF TPDim(LebEls[i].fs) \in {1, 2} /\ Len(TPIdx(LebEls[i].fs)) <= 6
                                                THEN <<[Job("lebesgue") EXCEPT !.el = LebEls[i], !.s = "A", !.w = <<1>>]>> ELSE <<>>])
        \o Cat2(LebEls, <<"dim+", "dim-">>, LAMBDA el, s : [Job("leberr") EXCEPT !.el = el, !.s = s])
PlotJobs == Cat2(<<1, 2>>, Cat2(<<1, 2, 4>>, <<0, 1, 3, 7>>, LAMBDA n, r : <<n, r>>), LAMBDA d, p : [Job("plot") EXCEPT !.d = d, !.n = p[1], !.w = <<p[2]>>])
Plan == AffJobs \o WordJobs \o SmallJobs \o SingJobs \o ConvJobs \o MonoJobs \o LebJobs \o PlotJobs
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
