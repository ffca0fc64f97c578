------------------------------- MODULE RaceOps -------------------------------
(***************************************************************************)
(* Operations of several sessions on one history file, one step at a time. *)
(* A session may be stopped before it opens the file and once it has       *)
(* opened it for writing; between these points nothing else happens.       *)
(*                                                                         *)
(* A session P: h its history, k the operations it finished, at where it   *)
(* stopped, ev the operation under way, x what it is about to write:       *)
(*   "-"  before its next operation                                        *)
(*   "oa" before opening the file to append; "wa" it is open               *)
(*   "or" before opening it to read                                        *)
(*   "ot" before opening it to be written anew; "ow" it is open, and empty *)
(* The texts are of one-byte characters.                                   *)
(***************************************************************************)
EXTENDS HistOps

NoEv == [op |-> "-", p |-> 0, n |-> 0, t |-> <<>>]
Peer(h) == [h |-> h, k |-> 0, at |-> "-", ev |-> NoEv, x |-> <<>>]
Finish(P) == [P EXCEPT !.k = @ + 1, !.at = "-", !.ev = NoEv, !.x = <<>>]

\* Writing x at the start of what is there.
Overlay(c, x) == x \o Drop(c, Min2(Len(x), Len(c)))

\* Steps give [P, f].
R(P, f) == [P |-> P, f |-> f]
Start(P, f, ev) ==
    LET h == P.h  Q == [P EXCEPT !.ev = ev] IN
    CASE ev.op = "push" ->
           IF ~h.dup /\ h.buf # <<>> /\ h.buf[Len(h.buf)] = ev.t THEN R(Finish(Q), f)
           ELSE LET h1 == [h EXCEPT !.buf = KeepLast(Append(@, ev.t), h.maxb)]
                IN  IF h.inc /\ h.fn THEN R([Q EXCEPT !.h = h1, !.at = "oa"], f)
                    ELSE R(Finish([Q EXCEPT !.h = h1]), f)
      [] ev.op = "load" -> IF h.fn THEN R([Q EXCEPT !.at = "or"], f) ELSE R(Finish(Q), f)
      [] ev.op = "commit" ->
           IF ~h.fn \/ h.inc THEN R(Finish(Q), f)
           ELSE LET h1 == [h EXCEPT !.buf = KeepLast(@, h.maxf)]
                IN  R([Q EXCEPT !.h = h1, !.at = "ot", !.x = ContentOf(h1.buf)], f)
      [] OTHER -> R(Finish(Q), f)

Appended(P, f) ==
    LET h == P.h
        c == IF h.ldup THEN 1 ELSE h.cw + 1
        h2 == [h EXCEPT !.fsize = @ + Bytes(P.ev.t) + 1, !.cw = c]
        g == <<f[1] \o P.ev.t \o <<NL>>>>
    IN  IF c < CompactEvery THEN R(Finish([P EXCEPT !.h = h2]), g)
        ELSE R([P EXCEPT !.h = h2, !.at = "or"], g)

Opened(P, f) ==        \* the file is open to be read
    LET h == P.h IN
    IF P.ev.op = "load"
    THEN R(Finish([P EXCEPT !.h = LoadHistory(h, f, P.ev.n = 1).h]), f)
    ELSE \* a compaction
    IF h.share
    THEN LET h1 == LoadTest(h, f[1], 0, FALSE)
             h2 == [h1 EXCEPT !.buf = KeepLast(@, h.maxf)]
         IN  R([P EXCEPT !.h = h2, !.at = "ot", !.x = ContentOf(h2.buf)], f)
    ELSE LET g == Dedup(h, f)
             h1 == [h EXCEPT !.cw = 0]
         IN  IF Len(Entries(f[1])) = Len(KeepLastCopies(KeepLast(Entries(f[1]), h.maxf)))
             THEN R(Finish([P EXCEPT !.h = h1]), f)
             ELSE R([P EXCEPT !.at = "ot", !.x = g[1]], f)

Step(P, f, prog) ==
    CASE P.at = "-" -> IF P.k < Len(prog) THEN Start(P, f, prog[P.k + 1]) ELSE R(P, f)
      [] P.at = "oa" -> R([P EXCEPT !.at = "wa"], f)
      [] P.at = "wa" -> Appended(P, f)
      [] P.at = "or" -> Opened(P, f)
      [] P.at = "ot" -> R([P EXCEPT !.at = "ow"], <<<<>>>>)
      [] P.at = "ow" -> R(Finish([P EXCEPT !.h.cw = IF P.ev.op = "push" THEN 0 ELSE @]), <<Overlay(f[1], P.x)>>)

\* The sessions and the file after whole operations.
RECURSIVE Whole(_, _, _)
Whole(x, evs, i) ==
    IF i > Len(evs) THEN x
    ELSE LET ev == evs[i]
             T == Op(x.hs[ev.p + 1], x.f, x.g, ev)
         IN  Whole([hs |-> [x.hs EXCEPT ![ev.p + 1] = T.h], f |-> T.f, g |-> T.g], evs, i + 1)
Begin(cfg) ==
    LET x == Whole([hs |-> [p \in 1..cfg.peers |-> NewHist(cfg)], f |-> <<>>, g |-> <<>>], cfg.pre, 1)
    IN  [ps |-> [p \in 1..cfg.peers |-> Peer(x.hs[p])], f |-> x.f]

\* What is looked at after a step of a session: the file, how many
\* operations the session finished, and its entries when it is between two.
RaceShown(T, lists, p) == [f |-> T.f, n |-> T.P.k, b |-> IF T.P.at = "-" THEN T.P.h.buf ELSE lists[p]]

(* A compaction reads the file and then writes it anew.  stale[p]: p read   *)
(* the file for one, and another session has written to it since.  Once    *)
(* such a session writes, what the others did is undone, and the file may  *)
(* be torn: the known finding "compaction" of P17.                         *)
Writes(P) == P.at \in {"wa", "ot", "ow"}
StaleNext(ps, stale, p) ==
    [q \in DOMAIN ps |-> IF q = p THEN (IF ps[p].at = "or" THEN FALSE ELSE stale[p])
                         ELSE stale[q] \/ (Writes(ps[p]) /\ ps[q].at \in {"ot", "ow"})]
\* Steps from here on are not judged.
Undoes(ps, stale, p) ==
    \/ ps[p].at = "ow" /\ stale[p]
    \* opened for reading, or for appending, while another one has emptied it
    \/ ps[p].at \in {"or", "wa"} /\ \E q \in DOMAIN ps : q # p /\ ps[q].at = "ow"
    \* emptied with a line in it that was not read
    \/ ps[p].at = "ot" /\ stale[p]
=============================================================================
