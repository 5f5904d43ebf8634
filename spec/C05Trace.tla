------------------------------ MODULE C05Trace ------------------------------
(* Recorded shapes and spaces are the values the algebra says.                *)
EXTENDS Algebra, Big, Judge
\* dimensions in exact arithmetic: they multiply whatever their size
BBin(n, k) == FoldLeft(LAMBDA a, i : BDiv(BMul(a, BInt(n - k + i)), BInt(i)), BInt(1), [i \in 1..k |-> i])
SpDimB(fs) == FoldLeft(LAMBDA a, f : BMul(a, BBin(f[1] + f[2], f[1])), BInt(1), fs)
NVB(fs) == FoldLeft(LAMBDA a, f : BMul(a, BInt(f[1] + 1)), BInt(1), fs)
Is(h, b) == BEq(BHex(h), b)
ClsOf(n, shp) == CASE n.cls = "S" -> (IF shp THEN "Simplex" ELSE "PN")
                   [] n.cls = "Q" -> (IF shp THEN "Hypercube" ELSE "QN")
                   [] OTHER -> (IF shp THEN "TensorProductShape" ELSE "TensorProductSpace")
Copies(e) == Len(e.copies) = 8 /\ \A k \in DOMAIN e.copies : e.copies[k] = "same"
ObjV(e, n, shp) ==
    Failing(<< <<"class", e.cls_ = ClsOf(n, shp)>>, <<"factors", e.fs = n.fs>>, <<"dimension", e.dim = Dim(n.fs)>>,
               <<"copies and pickles", Copies(e)>>, <<"equal construction", e.again>>, <<"immutable", e.frozen>> >>)
ShapeV(e) ==
    LET n == NF(e.job.term)
    IN  IF ~ShapeOK(e.job.term)
        THEN Failing(<< <<"unsupported product", e.cls = "exc" /\ \E k \in DOMAIN e.exc : e.exc[k] = "NotImplementedError">> >>)
        ELSE IF e.cls # "ok" THEN <<"available">>
        ELSE ObjV(e, n, TRUE)
             \o Failing(<< <<"nvertices", Is(e.nvertices, NVB(n.fs))>>,
                           <<"nfaces", Dim(n.fs) = 0 \/ e.nfaces = NF_(n.fs)>> >>)
SpaceV(e) ==
    LET n == NF(e.job.term)
    IN  IF e.cls # "ok" THEN <<"available">>
        ELSE ObjV(e, n, FALSE)
             \o Failing(<< <<"space dimension", Is(e.sdim, SpDimB(n.fs))>>,
                           <<"order", e.order = OrderOf(e.job.term, n)>> >>)
\* the space of a shape
SpaceForV(e) ==
    LET n == NF(e.job.term)
        o == e.job.orders
        f == [k \in 1..Len(n.fs) |-> <<n.fs[k][1], IF e.job.kind = "spacefor" THEN o[1] ELSE o[k]>>]
    IN  IF e.cls # "ok" THEN <<"available">>
        ELSE Failing(<< <<"space of the shape", e.fs = f>>,
                        <<"kind of space", e.tp = (n.cls # "S")>>, <<"space dimension", Is(e.sdim, SpDimB(f))>> >>)
\* equality and hashing, term 1 against all terms
PairsV(e) ==
    LET ts == e.job.term[2]
        a == NF(ts[1])
        same(k) == NF(ts[k + 1]) = a
    IN  IF e.cls # "ok" THEN <<"available">>
        ELSE Failing(<< <<"complete", Len(e.eq) = Len(ts) - 1>>,
                        <<"equality", \A k \in 1..Len(e.eq) : (e.eq[k][1] = "eq") = same(k)>>,
                        <<"hash", \A k \in 1..Len(e.eq) : same(k) => e.eq[k][2] = "eq">>,
                        <<"inequality", \A k \in 1..Len(e.eq) : (e.eq[k][3] = "ne") = ~same(k)>>,
                        <<"representation", \A k \in 1..Len(e.eq) : (e.eq[k][4] = "eq") = same(k)>> >>)
FacesV(e) == IF e.cls # "ok" THEN <<"available">>
             ELSE Failing(<< <<"copies of faces", Len(e.copies) > 0 /\ \A k \in DOMAIN e.copies : e.copies[k] = "same">> >>)
AlgVerdict(e) == CASE e.kind = "shape" -> ShapeV(e) [] e.kind = "space" -> SpaceV(e)
                   [] e.kind \in {"spacefor", "spacefors"} -> SpaceForV(e)
                   [] e.kind = "pairs" -> PairsV(e) [] e.kind = "faces" -> FacesV(e)
=============================================================================
