------------------------------ MODULE TraceBuf ------------------------------
(***************************************************************************)
(* Conformance of recorded uses of a text buffer: every operation with its *)
(* answer, the text after it and the answers to all queries on it.         *)
(***************************************************************************)
EXTENDS BufOps, Json, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, i, b, live
vars == <<tid, i, b, live>>

Differing(T, ev) ==
    LET o == ev.o IN
    IF o.r # 0 THEN {"r"}
    ELSE {f \in {"t"} : o.t # T.b.d} \cup {f \in {"ret"} : o.ret # T.ret}
         \cup (IF ev.q THEN LET a == Answers(T.b.d, ev.x, ev.y, ev.u)
                            IN  {f \in DOMAIN a : o[f] # a[f]}
               ELSE {})

Judge(k, T, ev) ==
    LET d == Differing(T, ev) IN
    IF d = {} THEN TRUE
    ELSE PrintT("MISMATCH " \o ToJson([tid |-> tid, i |-> k, d |-> SetToSeq(d),
            exp |-> [t |-> T.b.d, ret |-> T.ret,
                     q |-> IF ev.q THEN <<Answers(T.b.d, ev.x, ev.y, ev.u)>> ELSE <<>>]])) /\ FALSE

Init == tid \in 1..Len(Traces) /\ i = -1 /\ b = NewBuf(<<>>) /\ live = TRUE
Start == /\ i = -1 /\ i' = 0 /\ b' = NewBuf(Traces[tid].cfg.init) /\ UNCHANGED <<tid, live>>
Step == /\ live /\ i >= 0 /\ i < Len(Traces[tid].ev)
        /\ LET ev == Traces[tid].ev[i + 1]
               T == Op(b, ev)
           IN  b' = T.b /\ live' = Judge(i + 1, T, ev)
        /\ i' = i + 1 /\ UNCHANGED tid
Next == Start \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
