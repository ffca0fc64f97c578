------------------------------- MODULE MC_Hist -------------------------------
(***************************************************************************)
(* Bounded models of histories: one or more sessions and their file.  The  *)
(* laws are about a ghost: everything ever pushed, in order, and what each *)
(* session last knew the file to be.                                       *)
(***************************************************************************)
EXTENDS HistOps, Json, TLC, IOUtils

Model == JsonDeserialize(IOEnv.MODEL)
Starts == Model.starts

VARIABLES si, hs, f, g, path,
          log,   \* entries appended to the file, oldest first
          seen,  \* what each session last knew the file to be
          ok
vars == <<si, hs, f, g, path, log, seen, ok>>

Law(T, h, ev, p) ==
    LET buf == h.buf  new == T.h.buf IN
    CASE ev.op = "push" ->
           \* at the end, unless it is there already; the oldest go
           /\ IF ~h.dup /\ buf # <<>> /\ buf[Len(buf)] = ev.t THEN new = buf /\ T.f = f
              ELSE /\ Len(new) <= Max2(h.maxb, IF h.share /\ h.inc THEN h.maxf ELSE 0)
                   /\ ~(h.inc /\ h.fn) => new = KeepLast(Append(buf, ev.t), h.maxb)
                   \* on the file as soon as the push returns, and behind everything else
                   /\ (h.inc /\ h.fn /\ f # <<>> /\ h.maxf > 0 /\ ~IsComment(ev.t) /\ NL \notin ToSet(ev.t)
                       /\ (f[1] = <<>> \/ f[1][Len(f[1])] = NL)) =>
                         LET es == Entries(T.f[1]) IN es # <<>> /\ es[Len(es)] = ev.t
           \* compacting leaves no more entries than the file may have
           /\ (h.inc /\ h.fn /\ ~h.ldup /\ h.cw + 1 = CompactEvery /\ T.h.cw = 0 /\ f # <<>>) => Len(Entries(T.f[1])) <= h.maxf
      [] ev.op = "load" /\ ev.n = 0 /\ T.ok ->
           \* exactly the newest entries of the file; a file of the size last
           \* seen is taken to be the one last seen
           \/ new = Loaded(h, f[1], FALSE)
           \/ Bytes(f[1]) = h.fsize /\ new = buf
      [] ev.op \in {"commit", "commitpath"} /\ ~h.inc /\ h.fn ->
           /\ Entries(T.f[1]) = SelectSeq(KeepLast(buf, h.maxf), LAMBDA e : ~IsComment(e) /\ NL \notin ToSet(e))
              \/ \E i \in DOMAIN buf : NL \in ToSet(buf[i])
           /\ FileLines(T.f[1]) = KeepLast(buf, h.maxf) \/ \E i \in DOMAIN buf : NL \in ToSet(buf[i])
      \* writing a file leaves the newest entries in the list as well
      [] ev.op = "commitother" /\ ~h.inc ->
           /\ Len(new) = Min2(Len(buf), h.maxf)
           /\ \A i \in DOMAIN new : new[i] = buf[Len(buf) - Len(new) + i]
      \* all copies of an entry go, nothing else
      [] ev.op = "rmdup" ->
           /\ ev.t \notin ToSet(new)
           /\ \A e \in ToSet(buf) : (e # ev.t /\ NL \notin ToSet(e)) =>
                 Cardinality({i \in DOMAIN new : new[i] = e}) = Cardinality({i \in DOMAIN buf : buf[i] = e})
      [] OTHER -> TRUE

\* No entry is lost by what the sessions do: it is in the file, or as many
\* lines as the file may have came after it.
Kept(lg, x, maxf) ==
    x # <<>> => LET es == ToSet(Entries(x[1])) IN
                \A i \in DOMAIN lg : lg[i] \in es \/ Len(lg) - i >= maxf

Appended(T, h, ev) ==
    ev.op = "push" /\ h.inc /\ h.fn /\ f # <<>>
    /\ (h.dup \/ h.buf = <<>> \/ h.buf[Len(h.buf)] # ev.t)

RECURSIVE Run(_, _, _)
Run(x, evs, i) ==       \* events before the exploration
    IF i > Len(evs) THEN x
    ELSE LET ev == evs[i]
             T == Op(x.hs[ev.p + 1], x.f, x.g, ev)
         IN  Run([hs |-> [x.hs EXCEPT ![ev.p + 1] = T.h], f |-> T.f, g |-> T.g,
                  log |-> IF ev.op = "push" THEN Append(x.log, ev.t)
                          ELSE IF ev.op = "write" THEN Entries(ev.t) ELSE x.log], evs, i + 1)

Init == /\ si \in 1..Len(Starts)
        /\ LET st == Starts[si]
               x == Run([hs |-> [p \in 1..st.cfg.peers |-> NewHist(st.cfg)], f |-> <<>>, g |-> <<>>, log |-> <<>>], st.pre, 1)
           IN  hs = x.hs /\ f = x.f /\ g = x.g /\ log = x.log
        /\ seen = 0 /\ path = <<>> /\ ok = TRUE

Keys(k) == Model.keys[Starts[k].alph]
Next == /\ Len(path) < Starts[si].depth
        /\ \E k \in 1..Len(Keys(si)) :
             LET ev == Keys(si)[k]
                 h == hs[ev.p + 1]
                 T == Op(h, f, g, ev)
                 lg == IF Appended(T, h, ev) THEN Append(log, ev.t) ELSE log
             IN  /\ hs' = [hs EXCEPT ![ev.p + 1] = T.h] /\ f' = T.f /\ g' = T.g
                 /\ log' = lg
                 /\ ok' = (Law(T, h, ev, ev.p) /\ (Model.law = "P17" => Kept(lg, T.f, h.maxf)))
                 /\ path' = Append(path, k)
                 /\ PrintT("T " \o ToJson(<<si, path', Expected(T, ev)>>))
        /\ UNCHANGED <<si, seen>>
Spec == Init /\ [][Next]_vars
View == <<si, hs, f, g, ok, IF Model.law = "P17" THEN log ELSE <<>>>>
LawHolds == ok
=============================================================================
