------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Validation of a recorded trace: every event is an initial state, judged *)
(* by one step; Verdict(e) is the sequence of the names of the clauses of  *)
(* the specification that the event violates.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Verdict(_)
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES ji, jv
\* the driver could not observe what was planned (an exception out of place, a result of
\* another type than the documented one)
Crashed(e) == "cls" \in DOMAIN e /\ e.cls = "crash"
JInit == ji \in 1..Len(Trace) /\ jv = "todo"
JNext == /\ jv = "todo" /\ ji' = ji
         /\ LET f == IF Crashed(Trace[ji]) THEN <<"observable">> ELSE Verdict(Trace[ji])
            IN  jv' = IF f = <<>> THEN "ok"
                     ELSE IF PrintT(<<"FAIL", ji, Trace[ji].id, f>>) THEN "fail" ELSE "fail"
JSpec == JInit /\ [][JNext]_<<ji, jv>>
\* clauses: <<name, holds>> pairs, judged in order; the names of those that fail
Failing(cl) == LET bad == SelectSeq(cl, LAMBDA c : ~c[2]) IN [k \in 1..Len(bad) |-> bad[k][1]]
\* stop at the first failure (when later clauses presuppose earlier ones)
=============================================================================
