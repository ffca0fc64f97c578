------------------------------ MODULE TraceRace ------------------------------
(***************************************************************************)
(* Conformance of recorded schedules of sessions on one history file.      *)
(* A schedule is judged until a compaction undoes what another session did.*)
(***************************************************************************)
EXTENDS RaceOps, Json, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, i, ps, f, lists, stale, live,
          judged
vars == <<tid, i, ps, f, lists, stale, live, judged>>

Judge(k, e, ev) ==
    LET d == IF ev.o.r # 0 THEN {"r"} ELSE {x \in DOMAIN e : ev.o[x] # e[x]}
    IN  IF d = {} THEN TRUE
        ELSE PrintT("MISMATCH " \o ToJson([tid |-> tid, i |-> k, d |-> SetToSeq(d), exp |-> e])) /\ FALSE

Init == tid \in 1..Len(Traces) /\ i = -1 /\ live = TRUE /\ judged = TRUE /\ ps = <<>> /\ f = <<>> /\ lists = <<>> /\ stale = <<>>
Begins == /\ i = -1 /\ i' = 0
          /\ LET x == Begin(Traces[tid].cfg)
             IN  ps' = x.ps /\ f' = x.f /\ lists' = [p \in DOMAIN x.ps |-> x.ps[p].h.buf]
                /\ stale' = [p \in DOMAIN x.ps |-> FALSE]
          /\ UNCHANGED <<tid, live, judged>>
Goes == /\ live /\ judged /\ i >= 0 /\ i < Len(Traces[tid].ev)
        /\ LET ev == Traces[tid].ev[i + 1]
               p == ev.p + 1
               T == Step(ps[p], f, Traces[tid].cfg.prog[p])
               e == RaceShown(T, lists, p)
           IN  /\ ps' = [ps EXCEPT ![p] = T.P]
               /\ f' = T.f /\ lists' = [lists EXCEPT ![p] = e.b]
               /\ stale' = StaleNext(ps, stale, p)
               /\ judged' = ~Undoes(ps, stale, p)
               /\ live' = (judged' => Judge(i + 1, e, ev))
        /\ i' = i + 1 /\ UNCHANGED tid
Passes == /\ live /\ ~judged /\ i < Len(Traces[tid].ev)
          /\ i' = i + 1 /\ UNCHANGED <<tid, ps, f, lists, stale, live, judged>>
Next == Begins \/ Goes \/ Passes
Spec == Init /\ [][Next]_vars
=============================================================================
