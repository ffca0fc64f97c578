------------------------------- MODULE TraceRl -------------------------------
(***************************************************************************)
(* Conformance of reading whole lines with one context: every event is a   *)
(* read, with the keys there are and, maybe, the terminal operation that   *)
(* fails; the application may push the line it gets.                       *)
(***************************************************************************)
EXTENDS Session, Json, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, i, h, f, live
vars == <<tid, i, h, f, live>>

InitHist(cfg) ==
    LET x == [DefaultHist EXCEPT !.dup = cfg.dup, !.inc = cfg.inc, !.share = cfg.share,
                                 !.ldup = cfg.ldup, !.buf = cfg.hist,
                                 !.maxb = IF cfg.maxb > 0 THEN cfg.maxb ELSE @,
                                 !.maxf = IF cfg.maxf > 0 THEN cfg.maxf ELSE @]
    IN  IF cfg.fn THEN SetFile(x, cfg.f) ELSE Res(x, <<>>, TRUE, 0)

\* A read nothing goes wrong in: [r, t, used, lg, h, f].
Whole(cfg, ev) ==
    LET R == ReadLine(cfg, h, f, ev.init, ev.keys)
        r == IF R.S.r = 0 THEN 1 ELSE R.S.r
    IN  [r |-> r, t |-> IF r = 1 THEN Result(R.S.e) ELSE <<>>, used |-> R.used, lg |-> R.lg,
         h |-> R.S.e.h, f |-> R.S.e.f]
Pushed(ev, x) == IF ev.push /\ x.r = 1
                 THEN LET p == Push(x.h, x.f, x.t) IN [x EXCEPT !.h = p.h, !.f = p.f]
                 ELSE x

\* The terminal failed: the read ends with that failure, takes no further
\* key and leaves history and file as they were.
Broken(cfg, ev, o) ==
    LET x == Whole(cfg, ev)
        n == Min2(Len(o.lg), Len(x.lg))
    IN  [r |-> 5, t |-> <<>>, used |-> Min2(o.used, x.used), lg |-> Take(x.lg, n), h |-> h, f |-> f]

\* The width asked for first, to clear the row the prompt goes to, may fail
\* unnoticed.
Unnoticed(ev, o) == o.first /\ ~ev.sticky /\ o.r # 5

Expected(cfg, ev) ==
    LET o == ev.o IN
    IF o.hit = "" \/ Unnoticed(ev, o) THEN Pushed(ev, Whole(cfg, ev)) ELSE Broken(cfg, ev, o)

Differs(cfg, x, o, k) ==
    CASE k = "r" -> o.r # x.r
      [] k = "t" -> o.t # x.t
      [] k = "used" -> o.used # x.used
      [] k = "late" -> o.late # 0 /\ o.r = 5
      [] k = "lg" -> o.lg # x.lg
      [] k = "hs" -> o.hs # x.h.buf
      [] k = "fl" -> o.fl # x.f
Judge(cfg, k, x, o) ==
    LET d == IF o.r \in {8, 9} THEN {"r"} ELSE {y \in ToSet(cfg.cmp) : Differs(cfg, x, o, y)}
    IN  IF d = {} THEN TRUE
        ELSE PrintT("MISMATCH " \o ToJson([tid |-> tid, i |-> k, d |-> SetToSeq(d),
                exp |-> [r |-> x.r, t |-> x.t, used |-> x.used, late |-> 0, lg |-> x.lg, hs |-> x.h.buf, fl |-> x.f]])) /\ FALSE

Init == tid \in 1..Len(Traces) /\ i = -1 /\ h = <<>> /\ f = <<>> /\ live = TRUE
Start == /\ i = -1 /\ i' = 0
         /\ LET r == InitHist(Traces[tid].cfg) IN h' = r.h /\ f' = r.f
         /\ UNCHANGED <<tid, live>>
Step == /\ live /\ i >= 0 /\ i < Len(Traces[tid].ev)
        /\ LET cfg == Traces[tid].cfg
               ev == Traces[tid].ev[i + 1]
               x == IF ev.o.r \in {8, 9} THEN Whole(cfg, ev) ELSE Expected(cfg, ev)
           IN  /\ h' = x.h /\ f' = x.f
               /\ live' = Judge(cfg, i + 1, x, ev.o)
        /\ i' = i + 1 /\ UNCHANGED tid
Next == Start \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
