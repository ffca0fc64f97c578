------------------------------- MODULE MC_Race -------------------------------
(***************************************************************************)
(* Every schedule of the steps of short programs of sessions sharing one   *)
(* history file, until a compaction undoes what another session did (see   *)
(* RaceOps; DESIGN.md, known findings).  The laws say that nothing else    *)
(* goes wrong.                                                             *)
(***************************************************************************)
EXTENDS RaceOps, Json, TLC, IOUtils

Model == JsonDeserialize(IOEnv.MODEL)
Starts == Model.starts

VARIABLES si, ps, f, lists, path, stale,
          log,    \* entries of the file at first, and those appended, in order
          ok
vars == <<si, ps, f, lists, path, stale, log, ok>>

Lines(g) == ToSet(Entries(g[1]))

\* Session P took a step and is now Q, the file g before and x after it.
Law(all, g, x, lg, P, Q) == \E L \in {Lines(x)} :
    \* no entry is lost or made up, but by the limit
    /\ (\A q \in DOMAIN all : all[q].at # "ow") =>
         /\ \A i \in DOMAIN lg : IsComment(lg[i]) \/ lg[i] \in L \/ Len(lg) - i >= P.h.maxf
         /\ L \subseteq ToSet(lg)
    \* what is appended is on the file at once, whole
    /\ P.at = "wa" => x[1] = g[1] \o P.ev.t \o <<NL>>
    \* only appending and compacting write
    /\ ~Writes(P) => x = g
    /\ P.at = "oa" => P.ev.op = "push"
    \* a push that returns has put its entry on the file
    /\ (P.at \in {"wa", "or", "ow"} /\ P.ev.op = "push" /\ Q.at = "-") =>
         (IsComment(P.ev.t) \/ P.ev.t \in L \/ P.h.maxf = 0)
    \* a reload sees exactly the file, or one of the size it last saw
    /\ (P.ev.op = "load" /\ P.at = "or") => (Q.h.buf = Loaded(P.h, g[1], FALSE) \/ Bytes(g[1]) = P.h.fsize)
    \* a list is within its limits and changes only with its session's own
    /\ Len(Q.h.buf) <= MaxOf({P.h.maxb, P.h.maxf, Len(P.h.buf)})
    \* compacting leaves no more than the limit
    /\ (P.at = "ow" /\ P.ev.op = "push" /\ Q.at = "-") => Len(Entries(x[1])) <= P.h.maxf
    \* the counter of a compaction
    /\ Q.h.cw <= CompactEvery /\ (Q.at = "-" => Q.h.cw < CompactEvery)

Init == /\ si \in 1..Len(Starts)
        /\ LET x == Begin(Starts[si].cfg)
           IN  /\ ps = x.ps /\ f = x.f /\ lists = [p \in DOMAIN x.ps |-> x.ps[p].h.buf]
               /\ log = (IF x.f = <<>> THEN <<>> ELSE Entries(x.f[1]))
               /\ stale = [p \in DOMAIN x.ps |-> FALSE]
        /\ path = <<>> /\ ok = TRUE

Prog(p) == Starts[si].cfg.prog[p]
Next == /\ \E p \in DOMAIN ps :
             /\ ps[p].at # "-" \/ ps[p].k < Len(Prog(p))
             /\ ~Undoes(ps, stale, p)
             /\ LET T == Step(ps[p], f, Prog(p))
                    e == RaceShown(T, lists, p)
                    lg == IF ps[p].at = "wa" THEN Append(log, ps[p].ev.t) ELSE log
                IN  /\ ps' = [ps EXCEPT ![p] = T.P] /\ f' = T.f /\ lists' = [lists EXCEPT ![p] = e.b]
                    /\ log' = lg
                    /\ stale' = StaleNext(ps, stale, p)
                    /\ ok' = Law(ps', f, T.f, lg, ps[p], T.P)
                    /\ path' = Append(path, p)
                    /\ PrintT("T " \o ToJson(<<si, path', e>>))
        /\ UNCHANGED si
Spec == Init /\ [][Next]_vars
View == <<si, ps, f, lists, log, stale, ok, IF Model.deep THEN path ELSE <<>>>>
LawHolds == ok
Short == [si |-> si, path |-> path, ps |-> [p \in DOMAIN ps |-> <<ps[p].at, ps[p].k, ps[p].ev, ps[p].h.cw, Len(ps[p].h.buf)>>], f |-> f]
=============================================================================
