------------------------------ MODULE C10Trace ------------------------------
(* The symbolic expressions have the values of the numeric functions.         *)
EXTENDS Elem, Judge
N(e) == SpaceDim(e.job.el.fs)
Agree(e, c) == \A i \in 1..N(e) : VxClose(VHex(e.sym[c][i]), VHex(e.num[c][i]), FxEps(38))
SymVerdict(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE IF e.count # N(e) THEN <<"count">>
    ELSE IF ~e.scalar THEN <<"scalar expressions">>
    ELSE IF ~e.finite THEN <<"finite">>
    ELSE Failing([c \in 1..Len(e.sym) |-> <<IF e.job.what = "function" THEN "value" ELSE "component " \o ToString(c), Agree(e, c)>>])
=============================================================================
