----------------------------- MODULE TraceWords -----------------------------
(***************************************************************************)
(* Conformance of word division and of the classes of cursor positions.    *)
(***************************************************************************)
EXTENDS Words, Json, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, i, live
vars == <<tid, i, live>>

Expected(ev) == [w |-> Words(ev.t), p |-> CursorPos(ev.n, Words(ev.t)), g |-> CursorPos(ev.n, ev.w)]

Judge(k, ev) ==
    LET e == Expected(ev)
        d == IF ev.o.r # 0 THEN {"r"} ELSE {f \in DOMAIN e : ev.o[f] # e[f]}
    IN  /\ Assert(WordsPartition(ev.t), <<"not a division", ev.t>>)
        /\ IF d = {} THEN TRUE
           ELSE PrintT("MISMATCH " \o ToJson([tid |-> tid, i |-> k, d |-> SetToSeq(d), exp |-> e])) /\ FALSE

Init == tid \in 1..Len(Traces) /\ i = -1 /\ live = TRUE
Start == i = -1 /\ i' = 0 /\ UNCHANGED <<tid, live>>
Step == /\ live /\ i >= 0 /\ i < Len(Traces[tid].ev)
        /\ live' = Judge(i + 1, Traces[tid].ev[i + 1])
        /\ i' = i + 1 /\ UNCHANGED tid
Next == Start \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
