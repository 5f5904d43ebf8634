------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Histories of calls by a caller who keeps the values it is given, reads   *)
(* them again, and overwrites arrays it was given or passed in.             *)
(* The specification: a call's outcome is a function of its arguments, and  *)
(* a value changes only if the caller overwrites that value.                *)
(* Implementations are described by what a result's memory is shared with;  *)
(* the safe ones meet the specification, the unsafe ones are those that a   *)
(* history has to be able to expose.                                        *)
(***************************************************************************)
EXTENDS Elem
Op(op, arg) == [op |-> op, arg |-> arg]

(* ---- implementations over three calls: 1, 2 succeed, 3 fails ---------------- *)
Safe == {"fresh", "frozen"}
Unsafe == {"shared", "alias", "keepsargs", "sticky", "once", "scratch", "editsargs", "argcache"}
\* a state: cells (contents 0 = the proper value), handles (call, cell), cache, a flag
Start == [cells |-> <<>>, hs |-> <<>>, cache |-> <<0, 0>>, bad |-> FALSE, n |-> <<0, 0>>, obs |-> <<>>]
NewCell(st, v) == [st EXCEPT !.cells = Append(@, v)]
Top(st) == Len(st.cells)
Give(st, c, cell, kept) == [st EXCEPT !.hs = Append(@, [c |-> c, cell |-> cell, arg |-> 0]), !.n[c] = @ + 1,
                              !.obs = Append(@, [same |-> st.cells[cell] = 0, kept |-> kept])]
DoCall(p, st, c) ==
    IF c = 3 THEN [st EXCEPT !.hs = Append(@, [c |-> 3, cell |-> 0, arg |-> 0]), !.bad = TRUE, !.obs = Append(@, [same |-> TRUE, kept |-> TRUE])]
    ELSE CASE p \in {"frozen", "shared"} /\ st.cache[c] # 0 -> Give(st, c, st.cache[c], TRUE)
           [] p \in {"frozen", "shared"} -> LET s == NewCell(st, 0) IN Give([s EXCEPT !.cache[c] = Top(s)], c, Top(s), TRUE)
           [] p = "sticky" -> LET s == NewCell(st, IF st.bad THEN 1 ELSE 0) IN Give(s, c, Top(s), TRUE)
           [] p = "once" -> LET s == NewCell(st, IF st.n[c] > 0 THEN 1 ELSE 0) IN Give(s, c, Top(s), TRUE)
           [] p = "scratch" -> \* one buffer for all calls
                LET s == IF st.cells = <<>> THEN NewCell(st, 0) ELSE st
                    \* the other calls' handles now show this call's values
                    t == Give([s EXCEPT !.cells[1] = 0], c, 1, TRUE)
                IN  [t EXCEPT !.hs = [i \in DOMAIN t.hs |-> IF t.hs[i].c # c /\ t.hs[i].c # 3 THEN [t.hs[i] EXCEPT !.arg = 1] ELSE t.hs[i]]]
           [] p = "argcache" -> \* the result of the last call is remembered together with the caller's argument array
                LET s == NewCell(st, IF st.cache[c] = -1 THEN 1 ELSE 0) IN Give(s, c, Top(s), TRUE)
           [] OTHER -> LET s == NewCell(st, 0) IN Give(s, c, Top(s), p # "editsargs")
DoOp(p, st, o) ==
    CASE o.op = "call" -> DoCall(p, st, o.arg)
      [] o.op = "write" -> LET h == st.hs[o.arg]
                           IN  [st EXCEPT !.cells = IF h.cell = 0 \/ p = "frozen" THEN @ ELSE [@ EXCEPT ![h.cell] = 1],
                                          !.obs = Append(@, [same |-> TRUE, kept |-> TRUE])]
      [] o.op = "args" -> LET h == st.hs[o.arg]
                          IN  [st EXCEPT !.cells = IF h.cell # 0 /\ p \in {"alias", "keepsargs"} THEN [@ EXCEPT ![h.cell] = 1] ELSE @,
                                         !.cache = IF h.cell # 0 /\ p = "argcache" THEN [@ EXCEPT ![h.c] = -1] ELSE @,
                                         !.obs = Append(@, [same |-> TRUE, kept |-> TRUE])]
      [] OTHER -> LET h == st.hs[o.arg]
                  IN  [st EXCEPT !.obs = Append(@, [same |-> h.cell = 0 \/ (st.cells[h.cell] = 0 /\ h.arg = 0), kept |-> TRUE])]
RunImpl(p, hist) == FoldLeft(LAMBDA st, o : DoOp(p, st, o), Start, hist).obs

(* ---- the specification of histories ------------------------------------------ *)
\* data[c]: overwriting the result is overwriting the value; shares[c]: documented to share memory with its argument
Judge1(hist, obs, data, shares) ==
    LET step(st, i) ==
            LET o == hist[i]
                r == obs[i]
            IN  CASE o.op = "call" -> [h |-> Append(st.h, [c |-> o.arg, dirty |-> FALSE]),
                                       f |-> st.f \o (IF r.same THEN <<>> ELSE <<<<"value of call", i>>>>) \o (IF r.kept THEN <<>> ELSE <<<<"argument changed", i>>>>)]
                  [] o.op = "write" -> [st EXCEPT !.h[o.arg].dirty = @ \/ data[st.h[o.arg].c]]
                  [] o.op = "args" -> [st EXCEPT !.h[o.arg].dirty = @ \/ shares[st.h[o.arg].c]]
                  [] OTHER -> [st EXCEPT !.f = @ \o (IF r.same \/ st.h[o.arg].dirty THEN <<>> ELSE <<<<"earlier value", i>>>>)]
    IN  FoldLeft(step, [h |-> <<>>, f |-> <<>>], RG(1, Len(hist))).f
Meets(p, hist) == Judge1(hist, RunImpl(p, hist), <<TRUE, TRUE, TRUE>>, <<FALSE, FALSE, FALSE>>) = <<>>

(* ---- families of calls ----------------------------------------------------------- *)
Objects == {"basis", "tpb", "faces", "shape", "space", "sfs", "sym"}
Views == {"resh", "unresh", "tpq"}
IsData(c) == ~(c.f \in Objects)
Shares(c) == c.f \in Views
Fails(c) == c.f \in {"x-xg", "x-vr", "x-wv", "x-js", "x-kron", "x-space", "x-face", "x-vdm", "x-quadgk", "x-mass", "x-res", "x-orth", "x-resh", "x-leb",
                     "x-tpq", "x-sub", "x-aff", "x-qcall", "x-jg", "x-trans"}
=============================================================================
