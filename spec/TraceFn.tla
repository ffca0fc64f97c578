------------------------------- MODULE TraceFn -------------------------------
(***************************************************************************)
(* Conformance of file name completion, over trees made for the purpose.   *)
(***************************************************************************)
EXTENDS Filename, Json, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, i, tree, live
vars == <<tid, i, tree, live>>

Judge(k, cfg, ev) ==
    LET e == FileCompletions(tree, Comps(cfg.cwd), cfg.plain \/ cfg.case, ev.t)
        ok == ev.o.r = 0 /\ ToSet(ev.o.l) = e /\ Len(ev.o.l) = Cardinality(e)
    IN  IF ok THEN TRUE
        ELSE PrintT("MISMATCH " \o ToJson([tid |-> tid, i |-> k, d |-> <<IF ev.o.r # 0 THEN "r" ELSE "l">>,
                                           exp |-> [l |-> SetToSeq(e)]])) /\ FALSE

Init == tid \in 1..Len(Traces) /\ i = -1 /\ tree = <<>> /\ live = TRUE
Start == i = -1 /\ i' = 0 /\ tree' = TreeOf(Traces[tid].cfg.tree, Traces[tid].cfg.links) /\ UNCHANGED <<tid, live>>
Step == /\ live /\ i >= 0 /\ i < Len(Traces[tid].ev)
        /\ live' = Judge(i + 1, Traces[tid].cfg, Traces[tid].ev[i + 1])
        /\ i' = i + 1 /\ UNCHANGED <<tid, tree>>
Next == Start \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
