------------------------------- MODULE HistOps -------------------------------
(***************************************************************************)
(* Operations of a history and on its file as events, and what they show.  *)
(***************************************************************************)
EXTENDS History

NewHist(cfg) ==
    IF cfg.asis THEN DefaultHist
    ELSE [DefaultHist EXCEPT !.dup = cfg.dup, !.inc = cfg.inc, !.share = cfg.share,
                                    !.ldup = cfg.ldup, !.maxb = cfg.maxb, !.maxf = cfg.maxf]

\* Pushes of n numbered entries.
Decimal(i) == [k \in 1..4 |-> 48 + ((i \div (<<1000, 100, 10, 1>>[k])) % 10)]
Fill(h, x, t, n) ==
    FoldLeft(LAMBDA r, i : Push(r.h, r.f, t \o Decimal(i - 1)), Res(h, x, TRUE, 0), [i \in 1..n |-> i])

\* An operation of peer h: [h, f, g, ok, n]; f its file, g another one.
On(r, x) == [h |-> r.h, f |-> r.f, g |-> x, ok |-> r.ok, n |-> r.n]
Quiet(h, x, y) == [h |-> h, f |-> x, g |-> y, ok |-> TRUE, n |-> 0]
Op(h, x, y, ev) ==
    CASE ev.op = "push"     -> On(Push(h, x, ev.t), y)
      [] ev.op = "fill"     -> On(Fill(h, x, ev.t, ev.n), y)
      [] ev.op = "setfile"  -> On(SetFile(h, x), y)
      [] ev.op = "load"     -> On(LoadHistory(h, x, ev.n = 1), y)
      [] ev.op = "loadfile" -> On(LoadHistoryFile(h, x, ev.n = 1), y)
      [] ev.op = "loadother" -> LET r == LoadHistoryFile(h, y, ev.n = 1)
                                IN  [h |-> r.h, f |-> x, g |-> y, ok |-> r.ok, n |-> r.n]
      [] ev.op = "commit"   -> On(CommitFile(h, x), y)
      [] ev.op = "commitpath" -> On(CommitPath(h, x), y)
      [] ev.op = "commitother" -> LET r == CommitPath(h, y)
                                  IN  [h |-> r.h, f |-> x, g |-> r.f, ok |-> r.ok, n |-> r.n]
      [] ev.op = "maxb"  -> Quiet(SetMaxB(h, ev.n), x, y)
      [] ev.op = "maxf"  -> Quiet(SetMaxF(h, ev.n), x, y)
      [] ev.op = "rmdup" -> Quiet(RemoveDuplicates(h, ev.t), x, y)
      [] ev.op = "clear" -> Quiet([h EXCEPT !.buf = <<>>], x, y)
      [] ev.op = "dup"   -> Quiet([h EXCEPT !.dup = (ev.n = 1)], x, y)
      [] ev.op = "inc"   -> Quiet([h EXCEPT !.inc = (ev.n = 1)], x, y)
      [] ev.op = "ldup"  -> Quiet([h EXCEPT !.ldup = (ev.n = 1)], x, y)
      [] ev.op = "write" -> Quiet(h, <<ev.t>>, y)
      [] ev.op = "append" -> [Quiet(h, IF x = <<>> THEN x ELSE <<x[1] \o ev.t>>, y) EXCEPT !.ok = (x # <<>>)]
      [] ev.op = "unlink" -> [Quiet(h, <<>>, y) EXCEPT !.ok = (x # <<>>)]
      [] OTHER -> Quiet(h, x, y)

Expected(T, ev) ==
    LET buf == T.h.buf
        at == IF ev.x = -1 THEN Len(buf) ELSE Min2(ev.x, Len(buf))
    IN  [ok |-> T.ok, n |-> T.n, b |-> buf, it |-> buf, ix |-> buf, len |-> Len(buf), em |-> buf = <<>>,
         fn |-> T.h.fn, f |-> T.f, g |-> T.g, nm |-> NewestMatch(buf, at, ev.u),
         sub |-> Subset(buf, ev.u), si |-> SearchIndex(buf, ev.u)]
=============================================================================
