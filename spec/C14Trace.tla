------------------------------ MODULE C14Trace ------------------------------
(* Every entry of the reshaped array is the degree of freedom of its          *)
(* multi-index.  Entries are tags: the row-major position in the input.       *)
EXTENDS Tensor, Judge
InShape(e) == e.job.before \o <<SpaceDim(e.job.el.fs)>> \o e.job.after
Split(e) == Len(e.job.el.fs) # 1 \/ e.job.el.form = "Q"
OutShape(e) == IF e.istp THEN e.job.before \o Sizes(e.job.el.fs) \o e.job.after ELSE InShape(e)
Expected(e) ==
    LET s == OutShape(e)
        nb == Len(e.job.before)
        nk == IF e.istp THEN Len(e.job.el.fs) ELSE 1
        sz == Sizes(e.job.el.fs)
    IN  Force([c \in 1..Prod(s) |->
            LET m == CIdx(s, c - 1)
                mid == SubSeq(m, nb + 1, nb + nk)
            IN  CPos(InShape(e), SubSeq(m, 1, nb) \o <<IF e.istp THEN Lin(sz, mid) ELSE mid[1]>> \o SubSeq(m, nb + nk + 1, Len(m)))])
TagV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE Failing(<<
        <<"product structure", e.istp = (Len(e.job.el.fs) # 1)>>,
        <<"shape", e.rshape = OutShape(e)>>,
        <<"multi-index positions", e.tags = Expected(e)>>,
        <<"inverse shape", e.ushape = InShape(e)>>,
        <<"inverse positions", e.utags = [c \in 1..Prod(InShape(e)) |-> c - 1]>>,
        <<"inverse first", e.itags = [c \in 1..Prod(InShape(e)) |-> c - 1] /\ e.ishape = OutShape(e)>>,
        <<"type", e.type>>,
        <<"argument", e.argument>>,
        <<"view", e.view>> >>)
TupV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE LET fs == e.job.el.fs
             s == Sizes(fs)
             n == Prod(s)
         IN  Failing(<< <<"node tuples", e.tuples = TPIdx(fs)>>,
                        <<"mode identifiers", e.ids = [i \in 1..n |-> IdStr(e.job.el, TPIdx(fs)[i])]>>,
                        <<"reshaped listing", e.istp => e.listed = [c \in 1..n |-> TupleAt(fs, CIdx(s, c - 1))]>>,
                        <<"coordinates vary along their factor", e.istp => \A l \in 1..TPDim(fs) :
                            LET k == TPOwner(fs, l) IN \A c \in 1..n : \A b \in 1..n :
                                (n <= 60 /\ CIdx(s, c - 1)[k] = CIdx(s, b - 1)[k]) => e.coord[l][c] = e.coord[l][b]>> >>)
ErrV(e) == IF e.valid THEN Failing(<< <<"available", e.cls = "ok">> >>)
           ELSE Failing(<< <<"ValueError", "ValueError" \in {e.exc[k] : k \in DOMAIN e.exc}>> >>)
ReshapeVerdict(e) == CASE e.job.fam = "tag" -> TagV(e) [] e.job.fam = "tuples" -> TupV(e) [] OTHER -> ErrV(e)
=============================================================================
