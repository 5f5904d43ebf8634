------------------------------ MODULE C21Trace ------------------------------
(* Recorded histories against the specification of histories.                *)
EXTENDS History, Judge
HistVerdict(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE LET k == Len(e.job.calls)
             data == [i \in 1..k |-> IsData(e.job.calls[i])]
             sh == [i \in 1..k |-> Shares(e.job.calls[i])]
         IN  Judge1(e.job.hist, e.obs, data, sh)
             \o (IF \A i \in 1..k : Fails(e.job.calls[i]) = (e.refok[i] = "exc") THEN <<>> ELSE <<"outcome">>)
=============================================================================
