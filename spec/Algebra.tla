------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* Shapes and function spaces as values: terms and their normal forms.     *)
(*   shape terms  <<"S", d>> Simplex, <<"Q", d>> Hypercube,                 *)
(*                <<"X", terms>> TensorProductShape                         *)
(*   space terms  <<"S", d, N>> PN, <<"Q", d, N>> QN, <<"X", terms>>        *)
(* A normal form is [cls, fs]: the class of the object and its flattened   *)
(* factors <<dim, order>> (order 0 for shapes).                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

IsPair(t) == Len(t) = 2 /\ t[1] # "X"
Ord(t) == IF Len(t) = 3 THEN t[3] ELSE 0
Cube(d, n) == [k \in 1..d |-> <<d - d + 1, n>>]
Err == [cls |-> "error", fs |-> <<>>]
RECURSIVE NF(_)
NF(t) ==
    CASE t[1] = "S" -> [cls |-> "S", fs |-> << <<t[2], Ord(t)>> >>]
      [] t[1] = "Q" -> IF t[2] = 1 THEN [cls |-> "S", fs |-> << <<1, Ord(t)>> >>]
                       ELSE [cls |-> "Q", fs |-> Cube(t[2], Ord(t))]
      [] t[1] = "X" ->
            LET kids == [k \in 1..Len(t[2]) |-> NF(t[2][k])]
                flat == FlattenSeq([k \in 1..Len(kids) |-> kids[k].fs])
            IN  IF \E k \in 1..Len(kids) : kids[k].cls = "error" THEN Err
                ELSE IF Len(flat) = 1 THEN [cls |-> "S", fs |-> flat]
                ELSE [cls |-> "X", fs |-> flat]
\* shapes: at most one factor that is not a segment, at every level
RECURSIVE ShapeOK(_)
ShapeOK(t) == t[1] # "X" \/
    /\ \A k \in 1..Len(t[2]) : ShapeOK(t[2][k])
    /\ LET f == NF(t).fs IN Cardinality({k \in 1..Len(f) : f[k][1] # 1}) <= 1
Bin(n, k) == FoldLeft(LAMBDA a, i : (a * (n - k + i)) \div i, 1, [i \in 1..k |-> i])
Dim(fs) == FoldLeft(LAMBDA a, f : a + f[1], 0, fs)
NV(fs) == FoldLeft(LAMBDA a, f : a * (f[1] + 1), 1, fs)
NF_(fs) == FoldLeft(LAMBDA a, f : a + (IF f[1] > 0 THEN f[1] + 1 ELSE 0), 0, fs)
SpDim(fs) == FoldLeft(LAMBDA a, f : a * Bin(f[1] + f[2], f[1]), 1, fs)
\* the order of a space, -1 if it has none
OrderOf(t, nf) == IF t[1] = "Q" THEN Ord(t)
                  ELSE IF nf.fs = <<>> THEN (IF nf.cls = "Q" THEN Ord(t) ELSE -1)
                  ELSE IF \A k \in 1..Len(nf.fs) : nf.fs[k][2] = nf.fs[1][2] THEN nf.fs[1][2] ELSE -1
=============================================================================
