------------------------------ MODULE TraceHist ------------------------------
(***************************************************************************)
(* Conformance of histories and their file.  One or more sessions (peers)  *)
(* with settings of their own work on one file; other programs may write   *)
(* to it too.                                                              *)
(***************************************************************************)
EXTENDS HistOps, Json, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, i, hs, f, g, live
vars == <<tid, i, hs, f, g, live>>

Judge(k, T, ev) ==
    LET e == Expected(T, ev)
        d == IF ev.o.r # 0 THEN {"r"} ELSE {x \in DOMAIN e : ev.o[x] # e[x]}
    IN  IF d = {} THEN TRUE
        ELSE PrintT("MISMATCH " \o ToJson([tid |-> tid, i |-> k, d |-> SetToSeq(d), exp |-> e])) /\ FALSE

Init == /\ tid \in 1..Len(Traces) /\ i = -1 /\ live = TRUE
        /\ hs = <<>> /\ f = <<>> /\ g = <<>>
Start == /\ i = -1 /\ i' = 0
         /\ LET cfg == Traces[tid].cfg IN hs' = [p \in 1..cfg.peers |-> NewHist(cfg)]
         /\ UNCHANGED <<tid, f, g, live>>
Step == /\ live /\ i >= 0 /\ i < Len(Traces[tid].ev)
        /\ LET ev == Traces[tid].ev[i + 1]
               T == Op(hs[ev.p + 1], f, g, ev)
           IN  /\ hs' = [hs EXCEPT ![ev.p + 1] = T.h]
               /\ f' = T.f /\ g' = T.g
               /\ live' = Judge(i + 1, T, ev)
        /\ i' = i + 1 /\ UNCHANGED tid
Next == Start \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
