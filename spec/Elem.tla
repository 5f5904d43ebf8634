-------------------------------- MODULE Elem --------------------------------
(***************************************************************************)
(* Elements (a reference shape together with a polynomial space), their    *)
(* mode indices, and sample points on them.                                *)
(*                                                                         *)
(* An element is [form, fs], fs the sequence of its factors <<dim, order>>: *)
(*   form "P"  one factor: the simplex with P^N                            *)
(*        "Q"  all factors segments of one order: the hypercube with Q^N   *)
(*        "T"  TensorProductShape / TensorProductSpace of the factors      *)
(*        "N"  the same, but built from nested products (head, rest)       *)
(*        "C"  bases only: a TensorProductBasis composed by the user of    *)
(*             factor bases of the kinds ks                                *)
(*        "M"  the same, of the head and the composed rest                 *)
(***************************************************************************)
EXTENDS Ortho, TLC, Params

El(form, fs) == [form |-> form, fs |-> fs]
EP(d, N) == El("P", << <<d, N>> >>)
EQ(d, N) == El("Q", [k \in 1..d |-> <<1, N>>])
ET(fs) == El("T", fs)
EN(fs) == El("N", fs)
EC(form, fs, ks) == [form |-> form, fs |-> fs, ks |-> ks]
Composed(el) == el.form \in {"C", "M"}

RG(lo, hi) == [i \in 1..Max2(hi - lo + 1, 0) |-> lo + i - 1]
Cat2(A, B, f(_, _)) == FlattenSeq([i \in 1..Len(A) |-> [k \in 1..Len(B) |-> f(A[i], B[k])]])
\* dimension of the polynomial space
Binom(n, k) == IF k < 0 \/ k > n THEN 0
               ELSE FoldLeft(LAMBDA a, i : (a * (n - k + i)) \div i, 1, [i \in 1..k |-> i])
SpaceDim(fs) == FoldLeft(LAMBDA a, f : a * Binom(f[1] + f[2], f[1]), 1, fs)

\* mode identifiers as the library nests them, as strings: the index of a
\* one-dimensional factor is not nested; an element with one factor has its index
IdStr(el, idx) ==
    IF el.form = "P" THEN ToString(idx)
    ELSE LET part(k) == TPSub(el.fs, k, idx)
             strs == [k \in 1..Len(el.fs) |-> IF el.fs[k][1] = 1 THEN ToString(part(k)[1])
                                              ELSE ToString(part(k))]
             join(ss) == "<<" \o FoldLeft(LAMBDA a, s : IF a = "" THEN s ELSE a \o ", " \o s, "", ss) \o ">>"
         IN  IF el.form = "M" THEN join(<<strs[1], join(Tail(strs))>>) ELSE join(strs)

(* ---- sample points ------------------------------------------------------ *)
(* a coordinate is <<hi, lo>>, standing for hi 2^-20 + lo 2^-50, a double.    *)
(* Points with barycentric-like coordinates t = k/m (scaled so that m | 12)   *)
(* nudge: towards the interior point (1/4, .., 1/4) by a multiple of 2^-49.   *)
LCG(x) == (x * 171 + 11213) % 53125
HH(i, j) == LCG(LCG((LCG((LCG(i % 53125) + j) % 53125) + (Seed % 1000)) % 53125))

Lattice(d, m) == LET L == IdxList(d, m)
                 IN  [i \in 1..Len(L) |-> [l \in 1..d |-> <<-1048576 + (L[i][l] * 2097152) \div m, 0>>]]
Nudges == <<1, 512, 2048, 32768, 131072, 16777216>>
Nudged(d, ks) ==
    LET L == IdxList(d, 2)
    IN  Cat2(L, ks, LAMBDA t, k :
             [l \in 1..d |-> <<-1048576 + t[l] * 1048576, k * (1 - 2 * t[l])>>])
Random(d, n, salt) ==
    [i \in 1..n |->
        LET b == [l \in 1..(d + 1) |-> HH(i, 17 * l + salt) + 1]
            s == FoldLeft(LAMBDA a, x : a + x, 0, b)
        IN  [l \in 1..d |-> <<-1048576 + ((b[l] * 8192) \div s) * 256, 0>>]]
\* mode: "near" only points next to the vertices and edges, "rich" many, "few"
SimplexPoints(d, mode) ==
    IF d = 0 THEN << <<>> >>
    ELSE IF mode = "near" THEN Nudged(d, Nudges)
    ELSE Lattice(d, 2) \o Lattice(d, 4) \o Random(d, IF mode = "rich" THEN 16 ELSE 6, d)
\* points of a product: factors' points combined with different strides
Primes == <<1, 7, 11, 13, 17, 19>>
ElemPoints(fs, mode) ==
    IF Len(fs) = 0 THEN << <<>> >>
    ELSE IF Len(fs) = 1 THEN SimplexPoints(fs[1][1], mode)
    ELSE LET L == Force([k \in 1..Len(fs) |-> SimplexPoints(fs[k][1], IF mode = "near" /\ fs[k][1] = 1 THEN "few" ELSE mode)])
             n == IF mode = "few" THEN 36 ELSE 64
             V == Force([k \in 1..Len(fs) |-> IF fs[k][1] = 0 THEN << <<>> >> ELSE Lattice(fs[k][1], 1)])
             nv == FoldLeft(LAMBDA a, v : a * Len(v), 1, V)
             mix(i) == FlattenSeq([k \in 1..Len(fs) |-> L[k][((i * Primes[((k - 1) % 6) + 1]) % Len(L[k])) + 1]])
             stride(k) == FoldLeft(LAMBDA a, v : a * Len(v), 1, SubSeq(V, 1, k - 1))
             corner(i) == FlattenSeq([k \in 1..Len(fs) |-> V[k][(((i - 1) \div stride(k)) % Len(V[k])) + 1]])
         IN  [i \in 1..nv |-> corner(i)] \o [i \in 1..n |-> mix(i)]
\* transposed into hi and lo coordinate vectors
PtsRec(pts, d) == [n |-> Len(pts),
                   hi |-> [l \in 1..d |-> [i \in 1..Len(pts) |-> pts[i][l][1]]],
                   lo |-> [l \in 1..d |-> [i \in 1..Len(pts) |-> pts[i][l][2]]]]

(* ---- exact basis functions --------------------------------------------- *)
\* orthonormal basis: values of function idx at X (n0 points)
OnbVal(fac, fs, idx, n0) == VScale(TPVal(fac, fs, idx, n0), FxOne, FxNorm(TPNorm2(fs, idx)))
OnbDer(fac, facd, fs, idx, l, n0) ==
    VScale(TPDer(fac, facd, fs, idx, l, n0), FxOne, FxNorm(TPNorm2(fs, idx)))
MonoVal(X, idx, n0) == FoldLeft(LAMBDA acc, l : VxMul(acc, VxPow(X[l], idx[l])),
                                VConst(FxOne, n0), [l \in 1..Len(idx) |-> l])
MonoDer(X, idx, l, n0) ==
    IF idx[l] = 0 THEN VConst(BZero, n0)
    ELSE VxScale(MonoVal(X, [idx EXCEPT ![l] = @ - 1], n0), idx[l], 1)
\* all functions / derivatives along axis l: kind "onb" or "mono"
Vals(kind, fs, X, n0) ==
    LET idx == TPIdx(fs)
        fac == TPFac(fs, X)
    IN  Force([i \in 1..Len(idx) |-> IF kind = "onb" THEN OnbVal(fac, fs, idx[i], n0)
                                     ELSE MonoVal(X, idx[i], n0)])
Ders(kind, fs, X, l, n0) ==
    LET idx == TPIdx(fs)
        fac == TPFac(fs, X)
        facd == TPFacD(fs, X, l)
    IN  Force([i \in 1..Len(idx) |-> IF kind = "onb" THEN OnbDer(fac, facd, fs, idx[i], l, n0)
                                     ELSE MonoDer(X, idx[i], l, n0)])
=============================================================================
