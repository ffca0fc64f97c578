------------------------------ MODULE TraceEd ------------------------------
(***************************************************************************)
(* Conformance of recorded editor sessions.  Every line of the file named  *)
(* by TRACE is a session: its configuration, the events given to the code, *)
(* and what the code showed after each.  The specification takes the same  *)
(* steps; a field of cfg.cmp in which both differ is reported and ends the *)
(* session.  All sessions are initial choices, so the number of distinct   *)
(* states tells whether every one of them was followed to its end.         *)
(***************************************************************************)
EXTENDS Show, Json, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, i, S, base, live
vars == <<tid, i, S, base, live>>

Judge(cfg, k, T, b, o) ==
    LET d == Differing(cfg, T, b, o) IN
    IF d = {} THEN TRUE
    ELSE PrintT("MISMATCH " \o ToJson([tid |-> tid, i |-> k, d |-> SetToSeq(d),
                                       exp |-> Expected(cfg, T, b)])) /\ FALSE

Init == /\ tid \in 1..Len(Traces)
        /\ i = -1 /\ S = <<>> /\ base = <<>> /\ live = TRUE

Start == /\ i = -1
         /\ LET cfg == Traces[tid].cfg
                T == StartOf(cfg)
                b == StartBase(cfg)
            IN  /\ S' = T /\ base' = b
                /\ live' = Judge(cfg, 0, T, b, Traces[tid].o0)
         /\ i' = 0 /\ UNCHANGED tid

Step == /\ live /\ i >= 0 /\ i < Len(Traces[tid].ev)
        /\ LET cfg == Traces[tid].cfg
               ev == Traces[tid].ev[i + 1]
               T == Event(cfg, S, ev)
               b == IF T.e.cls > S.e.cls THEN [g |-> <<>>, a |-> <<>>] ELSE base
           IN  /\ S' = T /\ base' = b
               /\ live' = Judge(cfg, i + 1, T, b, ev.o)
        /\ i' = i + 1 /\ UNCHANGED tid

Next == Start \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
