-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The properties of a session, stated about its steps and not about the   *)
(* way the specification computes them.  MC_Ed evaluates them at every     *)
(* step of its models.                                                     *)
(*                                                                         *)
(* A step leads from S to T by event ev; g is a ghost: what of the past a  *)
(* law speaks about (see Ghost).                                           *)
(***************************************************************************)
EXTENDS Show

Txt(S) == CurText(S.e)
IsKeyEv(ev) == ev.op \in {"key", "core"}
InNormal(S) == TopMode(S.v).m = "N"

\* P is cut out of s between two places and something else put there.
Around(s, t, a, b) == /\ Len(t) >= Len(s) - (b - a)
                      /\ Take(t, a) = Take(s, a)
                      /\ Drop(t, Len(t) - (Len(s) - b)) = Drop(s, b)

----------------------------------------------------------------------------
(* P01: the cursor is on the line, in Vi's normal mode on a character.     *)
CursorSafe(cfg, T) ==
    /\ 0 <= T.e.cur /\ T.e.cur <= CurLen(T.e)
    /\ (cfg.vi /\ InNormal(T) /\ T.r = 0 /\ Txt(T) # <<>>) => T.e.cur < CurLen(T.e)
    /\ T.e.loc \in -1..(Len(T.e.h.buf) - 1)
    /\ T.e.sl \in -1..(Len(T.e.sub) - 1)

(* P04: undo goes back through the texts the line had, one command a time. *)
\* ghost: past, future, st (text the running command started from)
UndoKey(cfg, ev) == IsKeyEv(ev) /\ IF cfg.vi THEN IsCh(ev.k, 117) ELSE IsCtrl(ev.k, 120)
RevertKey(cfg, ev) == IsKeyEv(ev) /\ ~cfg.vi /\ ev.k.k = "Alt" /\ ev.k.c = 114
Whole(cfg, S) == ~cfg.vi \/ InNormal(S)     \* no command is under way
UndoLaw(cfg, S, ev, T, g) ==
    IF S.e.loc # -1 \/ T.e.loc # -1
    THEN (RevertKey(cfg, ev) /\ T.e.loc # -1) => Txt(T) = T.e.h.buf[T.e.loc + 1]
    ELSE
    IF Whole(cfg, S) /\ UndoKey(cfg, ev)
    THEN \/ Txt(T) = Txt(S)
         \/ g.past # <<>> /\ Txt(T) = g.past[Len(g.past)]
    ELSE IF ev.op = "redo"
    THEN Txt(T) = Txt(S) \/ (g.future # <<>> /\ Txt(T) = g.future[Len(g.future)])
    ELSE IF RevertKey(cfg, ev) THEN Txt(T) = IF g.past = <<>> THEN Txt(S) ELSE g.past[1]
    ELSE TRUE
UndoGhost(cfg, S, ev, T, g) ==
    IF S.e.loc # -1 \/ T.e.loc # -1 THEN g
    ELSE IF (Whole(cfg, S) /\ UndoKey(cfg, ev)) \/ ev.op = "redo"
    THEN IF Txt(T) = Txt(S) THEN g
         ELSE IF ev.op = "redo"
         THEN [past |-> Append(g.past, Txt(S)), future |-> Front(g.future), st |-> Txt(T)]
         ELSE [past |-> Front(g.past), future |-> Append(g.future, Txt(S)), st |-> Txt(T)]
    ELSE IF RevertKey(cfg, ev)
    THEN [past |-> <<>>, future |-> Reverse2(IF g.past = <<>> THEN <<>> ELSE Tail(g.past) \o <<Txt(S)>>) \o <<>>,
          st |-> Txt(T)]
    ELSE IF ~Whole(cfg, T) THEN g
    ELSE IF Txt(T) = g.st THEN g
    ELSE [past |-> Append(g.past, g.st), future |-> <<>>, st |-> Txt(T)]

(* P05: what one Emacs key may do to the line. *)
EmacsMoves == {97, 101, 98, 102}
\* Is something of a word on the left of, on the right of insertion point p;
\* does p lie between two words or a word and what is none?
PartOf(k, s, i) == CASE k = 0 -> ~(s[i] = SPACE /\ (i = 1 \/ s[i - 1] # BSL))
                     [] k = 1 -> s[i] # 44
                     [] OTHER -> s[i] # SPACE
Border(k, s, p) == \/ p = 0 \/ p = Len(s)
                   \/ PartOf(k, s, p) # PartOf(k, s, p + 1)
                   \/ k = 2 /\ AlNum(s[p]) # AlNum(s[p + 1])
EmacsLaw(cfg, S, ev, T) ==
    LET s == Txt(S)  t == Txt(T)  c == S.e.cur  d == T.e.cur  k == ev.k
        cutBack == t = RemoveText(s, d, c) /\ d <= c        \* something before the cursor
        cutAhead(n) == d = c /\ t = RemoveText(s, c, Min2(Len(s), c + n))
        moved == t = s
    IN  IF ~IsKeyEv(ev) \/ Searching(S.e) \/ S.e.loc # -1 \/ T.e.loc # -1 \/ T.r # 0 \/ S.e.cp # <<>> THEN TRUE ELSE
    CASE k.k = "Char" /\ k.c \notin {TAB, NL} -> t = InsertText(s, c, <<k.c>>) /\ d = c + 1
      [] k.k = "Backspace" \/ IsCtrl(k, 104) -> cutBack /\ c - d = Min2(1, c)
      [] k.k = "Delete" \/ IsCtrl(k, 100) -> cutAhead(1)
      [] IsCtrl(k, 117) -> cutBack /\ d = 0
      [] IsCtrl(k, 107) -> cutAhead(Len(s))
      [] IsCtrl(k, 119) \/ (k.k = "Alt" /\ k.c = 127) ->
            /\ cutBack
            /\ d = c => \A i \in 1..c : ~PartOf(S.e.wd, s, i)
            \* from where a word starts, nothing of a word behind its end
            /\ d < c => /\ Border(S.e.wd, s, d) /\ PartOf(S.e.wd, s, d + 1)
                        /\ \A i \in (d + 1)..(c - 1) : Border(S.e.wd, s, i) =>
                              \A j \in (i + 1)..c : ~PartOf(S.e.wd, s, j)
      [] k.k \in {"Left", "Right", "Home", "End"} \/ (k.k = "Ctrl" /\ k.c \in EmacsMoves) ->
            \/ moved
            \/ S.e.sg # <<>> /\ t = S.e.sg[1] /\ d = Len(t)
      [] k.k = "Alt" /\ k.c \in {102, 98} ->
            /\ moved
            /\ k.c = 102 =>
                 /\ d >= c
                 /\ d > c => PartOf(S.e.wd, s, d) /\ Border(S.e.wd, s, d)
                 /\ \A i \in (c + 1)..(IF d = c THEN Len(s) ELSE d - 1) :
                        ~(PartOf(S.e.wd, s, i) /\ Border(S.e.wd, s, i))
            /\ k.c = 98 =>
                 /\ d <= c
                 /\ d < c => PartOf(S.e.wd, s, d + 1) /\ Border(S.e.wd, s, d)
                 /\ \A i \in (IF d = c THEN 0 ELSE d + 1)..(c - 1) :
                        ~(PartOf(S.e.wd, s, i + 1) /\ Border(S.e.wd, s, i))
      [] OTHER -> TRUE

(* P06: motions leave the line alone, and go where they say: the n-th      *)
(* start or end of a word on that side, or as far as there are any.        *)
Sort(c, big) == IF IsWs(c) THEN "blank" ELSE IF big THEN "word" ELSE IF IsKeyword(c) THEN "keyword" ELSE "other"
WordStarts(t, big) == {j \in 0..(Len(t) - 1) : ~IsWs(t[j + 1]) /\ (j > 0 => Sort(t[j], big) # Sort(t[j + 1], big))}
WordEnds(t, big) == {j \in 0..(Len(t) - 1) : ~IsWs(t[j + 1]) /\ (j < Len(t) - 1 => Sort(t[j + 2], big) # Sort(t[j + 1], big))}
NthAfter(A, c, d, n, far) == LET X == {j \in A : j > c} IN
                             IF Cardinality(X) >= n THEN d \in X /\ Cardinality({j \in X : j <= d}) = n ELSE d = far
NthBefore(A, c, d, n, far) == LET X == {j \in A : j < c} IN
                              IF Cardinality(X) >= n THEN d \in X /\ Cardinality({j \in X : j >= d}) = n ELSE d = far
CharLaw(t, c, d, x, k, n) ==
    LET A == {j \in 0..(Len(t) - 1) : t[j + 1] = k} IN
    CASE x = "f" -> NthAfter(A, c, d, n, c)
      [] x = "F" -> NthBefore(A, c, d, n, c)
      [] x = "t" -> NthAfter(A, c, d + 1, n, c + 1)
      [] x = "T" -> NthBefore(A, c, d - 1, n, c - 1)
MotionLaw(cfg, S, ev, T) ==
    LET t == Txt(T)  c == S.e.cur  d == T.e.cur  n == Count(S.v)  k == ev.k.c  far == Max2(0, Len(t) - 1) IN
    /\ t = Txt(S)
    /\ (IsKeyEv(ev) /\ InNormal(S) /\ ev.k.k = "Char") =>
         CASE k = 119 -> NthAfter(WordStarts(t, FALSE), c, d, n, far)       \* w
           [] k = 87  -> NthAfter(WordStarts(t, TRUE), c, d, n, far)        \* W
           [] k = 101 -> NthAfter(WordEnds(t, FALSE), c, d, n, far)         \* e
           [] k = 69  -> NthAfter(WordEnds(t, TRUE), c, d, n, far)          \* E
           [] k = 98  -> NthBefore(WordStarts(t, FALSE), c, d, n, 0)        \* b
           [] k = 66  -> NthBefore(WordStarts(t, TRUE), c, d, n, 0)         \* B
           [] k = 104 -> d = Max2(0, c - n)                                 \* h
           [] k \in {108, 32} -> d = Min2(far, c + n)                       \* l, space
           [] k = 94 \/ (k = 48 /\ S.v.n = 0) -> d = 0                      \* ^ 0
           [] k = 36 -> d = far                                             \* $
           [] k \in {59, 44} ->                                             \* ; ,
                IF S.v.lm = <<>> THEN d = c
                ELSE LET x == S.v.lm[2] IN
                     CharLaw(t, c, d, IF k = 59 THEN x
                                      ELSE CASE x = "f" -> "F" [] x = "F" -> "f" [] x = "t" -> "T" [] x = "T" -> "t",
                             S.v.lm[1], n)
           [] OTHER -> d = c
    /\ (IsKeyEv(ev) /\ TopMode(S.v).m = "G") =>
         IF ev.k.k = "Char" /\ k \in {101, 69} THEN NthBefore(WordEnds(t, k = 69), c, d, n, 0) ELSE d = c
    /\ (IsKeyEv(ev) /\ TopMode(S.v).m = "M") =>
         IF ev.k.k = "Char" THEN CharLaw(t, c, d, TopMode(S.v).x, k, n) ELSE d = c

(* P07: counts are used up, aborted commands change nothing, operators act *)
(* on exactly what their motion passes over, other commands on as many     *)
(* characters as they are told.                                            *)
NthUp(A, c, n, far) == LET X == {j \in A : j > c} IN
    IF Cardinality(X) < n THEN far ELSE CHOOSE j \in X : Cardinality({i \in X : i <= j}) = n
NthDown(A, c, n, far) == LET X == {j \in A : j < c} IN
    IF Cardinality(X) < n THEN far ELSE CHOOSE j \in X : Cardinality({i \in X : i >= j}) = n
CharTarget(t, c, x, k, n) ==        \* -1: there is none
    LET A == {j \in 0..(Len(t) - 1) : t[j + 1] = k} IN
    CASE x = "f" -> NthUp(A, c, n, -1)
      [] x = "F" -> NthDown(A, c, n, -1)
      [] x = "t" -> LET p == NthUp(A, c, n, -1) IN IF p = -1 THEN -1 ELSE p - 1
      [] x = "T" -> LET p == NthDown(A, c, n, -1) IN IF p = -1 THEN -1 ELSE p + 1
Cut(s, T, c, p, incl) ==
    LET a == Min2(c, p)  b == Min2(Len(s), Max2(c, p) + (IF incl THEN 1 ELSE 0))
    IN  /\ Txt(T) = RemoveText(s, a, b)
        /\ T.e.cur = IF T.e.ne THEN Min2(a, Max2(0, Len(Txt(T)) - 1)) ELSE a
Untouched(S, T) == Txt(T) = Txt(S)
Over(ms) == Len(ms) > 1 /\ ms[Len(ms) - 1].m = "D"
OperatorLaw(S, k, T) ==
    LET s == Txt(S)  c == S.e.cur
        n == Max2(1, S.v.n) * Max2(1, S.v.n2)
    IN  CASE k = 119 -> Cut(s, T, c, NthUp(WordStarts(s, FALSE), c, n, Len(s)), FALSE)
          [] k = 87  -> Cut(s, T, c, NthUp(WordStarts(s, TRUE), c, n, Len(s)), FALSE)
          [] k = 101 -> Cut(s, T, c, NthUp(WordEnds(s, FALSE), c, n, Len(s)), TRUE)
          [] k = 69  -> Cut(s, T, c, NthUp(WordEnds(s, TRUE), c, n, Len(s)), TRUE)
          [] k = 98  -> Cut(s, T, c, NthDown(WordStarts(s, FALSE), c, n, 0), FALSE)
          [] k = 66  -> Cut(s, T, c, NthDown(WordStarts(s, TRUE), c, n, 0), FALSE)
          [] k = 104 -> Cut(s, T, c, Max2(0, c - n), FALSE)
          [] k \in {108, 32} -> Cut(s, T, c, Min2(Len(s), c + n), FALSE)
          [] k = 94 \/ (k = 48 /\ S.v.n = 0) -> Cut(s, T, c, 0, FALSE)
          [] k = 36 -> Cut(s, T, c, Len(s), FALSE)
          [] k \in {100, 99} /\ (k = 99) = (S.v.ci = <<Ch(99)>>) -> Txt(T) = <<>>
          [] k \in {59, 44} /\ S.v.lm # <<>> ->
                LET x == IF k = 59 THEN S.v.lm[2] ELSE Opposite(S.v.lm[2])
                    p == CharTarget(s, c, x, S.v.lm[1], n)
                IN  IF p = -1 THEN Untouched(S, T) ELSE Cut(s, T, c, p, x \in {"f", "t"})
          [] OTHER -> Untouched(S, T)
CommandLaw(cfg, S, ev, T) ==
    LET s == Txt(S)  t == Txt(T)  c == S.e.cur  n == Count(S.v)  k == ev.k.c
        m == TopMode(S.v)  char == ev.k.k = "Char"
        to == Min2(Len(s), c + n)
    IN
    /\ (IsKeyEv(ev) /\ InNormal(T) /\ ~(char /\ IsDigit(k))) => T.v.n = 0
    /\ (IsKeyEv(ev) /\ ev.k.k = "Esc" /\ m.m # "I") => t = s
    /\ (IsKeyEv(ev) /\ m.m = "D" /\ char) => OperatorLaw(S, k, T)
    /\ (IsKeyEv(ev) /\ m.m = "M" /\ Over(S.v.ms)) =>
         LET p == CharTarget(s, c, m.x, k, n) IN
         IF ~char \/ p = -1 THEN Untouched(S, T) ELSE Cut(s, T, c, p, m.x \in {"f", "t"})
    /\ (IsKeyEv(ev) /\ m.m = "G" /\ Over(S.v.ms)) =>
         IF char /\ k \in {101, 69} /\ c > 0
         THEN Cut(s, T, NthDown(WordEnds(s, k = 69), c, n, 0), c, TRUE) ELSE Untouched(S, T)
    /\ (IsKeyEv(ev) /\ m.m = "R") =>
         IF char /\ to - c = n
         THEN t = Take(s, c) \o [i \in 1..n |-> k] \o Drop(s, to) /\ T.e.cur = to - 1
         ELSE Untouched(S, T)
    /\ (IsKeyEv(ev) /\ m.m = "N") =>
         CASE (char /\ k \in {120, 115}) \/ ev.k.k = "Delete" -> t = RemoveText(s, c, to)
           [] char /\ k \in {68, 67} -> t = Take(s, c)
           [] char /\ k = 126 -> Around(s, t, c, to)
           [] char /\ k \in {46, 117, 106, 107} -> TRUE
           [] ev.k.k \in {"Up", "Down"} \/ S.e.cp # <<>> \/ Searching(S.e) -> TRUE
           [] IsCtrl(ev.k, 114) \/ IsCtrl(ev.k, 102) \/ ev.k.k = "Right" \/ IsCh(ev.k, TAB) \/ IsCh(ev.k, NL) -> TRUE
           [] OTHER -> Untouched(S, T)

(* P08: dot is typing the last change again. *)
\* ghost: run (keys of the command under way), last (<<>> or <<keys>>), st
DotLaw(cfg, S, ev, T, g) ==
    (IsKeyEv(ev) /\ InNormal(S) /\ S.v.n = 0 /\ IsCh(ev.k, 46) /\ g.last # <<>>) =>
        LET R == VKeys([e |-> S.e, v |-> S.v], g.last[1])
        IN  CurText(R.e) = Txt(T) /\ R.e.cur = T.e.cur
DotGhost(cfg, S, ev, T, g) ==
    LET run == Append(g.run, ev.k)
        first == SelectSeq(run, LAMBDA k : ~(k.k = "Char" /\ IsDigit(k.c)))
    IN  IF ~InNormal(T) \/ (ev.k.k = "Char" /\ IsDigit(ev.k.c) /\ T.v.n # 0) THEN [g EXCEPT !.run = run]
        ELSE IF first # <<>> /\ first[1].k = "Char" /\ first[1].c \in {46, 117} \* dot (a count given to it becomes its count), undo
        THEN [run |-> <<>>, last |-> IF Len(run) > 1 /\ first[1].c = 46 THEN <<>> ELSE g.last, st |-> Txt(T)]
        ELSE IF Txt(T) # g.st THEN [run |-> <<>>, last |-> <<run>>, st |-> Txt(T)]
        ELSE IF first # <<>> /\ first[1].k = "Char"
                /\ first[1].c \in {105, 97, 65, 73, 115, 114, 100, 99, 68, 67, 120, 126}
        THEN [run |-> <<>>, last |-> <<>>, st |-> Txt(T)]
        ELSE [g EXCEPT !.run = <<>>]

(* P09 *)
NavKey(k) == k.k \in {"Up", "Down"} \/ IsCtrl(k, 112) \/ IsCtrl(k, 110) \/ (k.k = "Alt" /\ k.c \in {60, 62})
UpKey(k) == k.k = "Up" \/ IsCtrl(k, 112)
DownKey(k) == k.k = "Down" \/ IsCtrl(k, 110)
BrowseLaw(cfg, S, ev, T) ==
    LET n == Len(S.e.h.buf)  l == S.e.loc  m == T.e.loc  new == S.e.nb.d IN
    /\ T.e.h.buf = S.e.h.buf
    /\ (T.e.loc # -1 /\ ~T.e.hv) => Txt(T) = T.e.h.buf[T.e.loc + 1]
    /\ (IsKeyEv(ev) /\ NavKey(ev.k) /\ ~Searching(S.e) /\ (cfg.vi => TopMode(S.v).m \in {"I", "N"})) =>
         /\ T.e.nb.d = new
         /\ m = -1 => Txt(T) = new
         /\ (UpKey(ev.k) /\ new = <<>>) => m = (IF l = -1 THEN n - 1 ELSE Max2(0, l - 1))
         /\ (DownKey(ev.k) /\ new = <<>>) => m = (IF l = -1 \/ l = n - 1 THEN -1 ELSE l + 1)
         /\ ((UpKey(ev.k) \/ DownKey(ev.k)) /\ new # <<>> /\ m # l /\ m # -1) =>
               HasPart(S.e.h.buf[m + 1], new) /\ S.e.h.buf[m + 1] # new
         \* from one that extends the line to the next older one that does, then
         \* through those that only contain it; down the other way
         /\ (UpKey(ev.k) /\ new # <<>> /\ l # -1 /\ m # l) =>
               LET ext(i) == Extends(S.e.h.buf[i + 1], new)
                   older(b) == {i \in 0..(n - 1) : HasPart(S.e.h.buf[i + 1], new) /\ S.e.h.buf[i + 1] # new /\ ext(i) = b}
                   same == {i \in older(ext(l)) : i < l}
               IN  m = IF same # {} THEN MaxOf(same) ELSE MaxOf(older(FALSE))
         /\ (DownKey(ev.k) /\ new # <<>> /\ l # -1 /\ m # -1) =>
               LET ext(i) == Extends(S.e.h.buf[i + 1], new)
                   newer(b) == {i \in 0..(n - 1) : HasPart(S.e.h.buf[i + 1], new) /\ S.e.h.buf[i + 1] # new /\ ext(i) = b}
                   same == {i \in newer(ext(l)) : i > l}
               IN  m = IF same # {} THEN MinOf(same) ELSE MinOf(newer(TRUE))
         \* going up and down again comes back (from a place among them)
         /\ (UpKey(ev.k) /\ m # l /\ ~(cfg.vi /\ InNormal(S))) =>
               LET B == HandleKey(cfg, T, Key("Down", 0)) IN B.e.loc = l
         /\ (UpKey(ev.k) /\ l = -1 /\ new # <<>>) =>
               LET ext == {i \in 1..n : Extends(S.e.h.buf[i], new)} IN ext # {} => m = MaxOf(ext) - 1

(* P10 *)
SearchLaw(cfg, S, ev, T) ==
    /\ Searching(T.e) =>
         /\ T.e.loc = -1
         /\ T.e.sub = SearchIndex(T.e.h.buf, T.e.nb.d)
         /\ (T.e.sl = -1) = (T.e.sub = <<>>)
         /\ T.e.sl # -1 => T.e.sg = <<T.e.h.buf[T.e.sub[T.e.sl + 1] + 1]>>
    /\ (IsKeyEv(ev) /\ ev.k.k = "Ctrl" /\ ev.k.c \in {114, 115}) =>
         LET n == Len(T.e.sub) IN
         IF Searching(S.e)
         THEN T.e.sub = S.e.sub /\ (n > 0 => T.e.sl = (S.e.sl + (IF ev.k.c = 115 THEN 1 ELSE n - 1)) % n)
         ELSE Searching(T.e) /\ ((S.e.sub = <<>> /\ n > 0) => T.e.sl = IF ev.k.c = 115 THEN 0 ELSE n - 1)
    /\ (Searching(S.e) /\ IsKeyEv(ev) /\ IsCtrl(ev.k, 102)) =>
         IF S.e.sl # -1 THEN Txt(T) = S.e.h.buf[S.e.sub[S.e.sl + 1] + 1] /\ T.e.cur = Len(Txt(T)) /\ ~Searching(T.e)
         ELSE Txt(T) = Txt(S)
    \* a match that still is one stays shown
    /\ (Searching(S.e) /\ Searching(T.e) /\ IsKeyEv(ev) /\ ev.k.k \in {"Char", "Backspace"} /\ S.e.sl # -1
        /\ HasPart(S.e.sg[1], T.e.nb.d)) => T.e.sg = S.e.sg

(* P11 *)
SuggestLaw(cfg, S, ev, T) ==
    /\ (~Searching(T.e) /\ T.e.loc = -1 /\ T.r = 0) =>
         LET m == {i \in DOMAIN T.e.h.buf : Extends(T.e.h.buf[i], Txt(T))} IN
         T.e.sg = IF m = {} THEN <<>> ELSE <<T.e.h.buf[MaxOf(m)]>>
    /\ (T.e.hv /\ Txt(T) # T.e.h.buf[T.e.loc + 1]) => T.e.sg = <<>>
    /\ (~Searching(S.e) /\ S.e.loc = -1 /\ T.e.loc = -1 /\ IsKeyEv(ev) /\ T.r = 0) =>
         LET acc == IsCtrl(ev.k, 102) \/ (ev.k.k = "Right" /\ AtEnd(S.e)) IN
         IF acc /\ S.e.sg # <<>> THEN Txt(T) = S.e.sg[1] /\ T.e.cur = Len(Txt(T)) - (IF T.e.ne THEN 1 ELSE 0)
         ELSE Len(Txt(T)) <= Len(Txt(S)) + 1
    /\ (T.r = 1 /\ ~Searching(S.e)) => Txt(T) = Txt(S)

(* P12 *)
CompleteLaw(cfg, S, ev, T) ==
    IF ~IsKeyEv(ev) THEN TRUE
    ELSE IF IsCh(ev.k, TAB)
    THEN LET s == Txt(S)  t == Txt(T)  c == S.e.cur
             w == WordBefore(S.e, FALSE)
             a == IF w = <<>> THEN c ELSE w[1][1]
             word == Slice(s, a, c)
             fit == ToSet(Cands(cfg, word))
         IN  IF S.e.cp = <<>>
             THEN /\ T.e.args = <<word>>
                  /\ Around(s, t, a, c)
                  /\ fit = {} => t = s
                  /\ Cardinality(fit) = 1 => t = Take(s, a) \o (CHOOSE x \in fit : TRUE) \o Drop(s, c)
                  /\ T.e.cp # <<>> => t = s /\ ToSet(T.e.cp[1]) = fit /\ Len(T.e.cp[1]) = Cardinality(fit)
                                      /\ \A i \in 2..Len(T.e.cp[1]) : LexLess(T.e.cp[1][i - 1], T.e.cp[1][i])
                  /\ (Cardinality(fit) > 1 /\ t # s) =>
                        LET x == Slice(t, a, Len(t) - (Len(s) - c)) IN
                        StartsWithText(x, word) /\ \A f \in fit : StartsWithText(f, x)
             ELSE /\ T.e.cp[1] = S.e.cp[1] /\ T.e.cp[2] = (S.e.cp[2] + 1) % Len(S.e.cp[1])
                  /\ T.e.args = <<>>
    ELSE /\ T.e.cp = <<>>
         /\ (IsCh(ev.k, NL) /\ S.e.cp # <<>>) => Txt(T) = Txt(S) /\ T.r = 0

(* P13: where things are on the screen. *)
RowCells(r) == Len(SelectSeq(r, LAMBDA c : CharWidth(c) # 0))
ScreenLaw(cfg, base, T) ==
    LET sc == Screen(cfg, base, T.e.dr)
        d == T.e.dr
        plain == ~d.srch /\ d.cp = <<>> /\ ~d.nl
    IN  /\ \A i \in DOMAIN sc.g : RowCells(sc.g[i]) <= Max2(cfg.w, 2)
        /\ 0 <= sc.x /\ sc.x <= Max2(0, cfg.w - 1)
        /\ Take(sc.g, Min2(Len(base.g), Len(sc.g))) = Take(base.g, Min2(Len(base.g), Len(sc.g)))
        \* combining characters take no cell; only look where there are none
        /\ (plain /\ d.c < Len(d.t) /\ d.t[d.c + 1] # NL /\ d.t[d.c + 1] # SPACE /\ CharWidth(d.t[d.c + 1]) = 1
            /\ \A i \in DOMAIN d.t : CharWidth(d.t[i]) # 0) => sc.g[sc.y + 1][sc.x + 1] = d.t[d.c + 1]
        /\ d.nl => sc.x = 0 /\ sc.y >= Len(sc.g)

(* P14 *)
EndLaw(cfg, S, ev, T) ==
    IsKeyEv(ev) =>
    LET s == Txt(S)  k == ev.k
        shown == IF Searching(S.e) /\ S.e.sg # <<>> THEN S.e.sg[1] ELSE s
        at == IF Searching(S.e) THEN Len(shown) ELSE S.e.cur
        cont == at > 0 /\ shown[at] = BSL
    IN  /\ (T.r = 1) = (IsCh(k, NL) /\ S.e.cp = <<>> /\ ~cont)
        /\ T.r = 1 => Txt(T) = shown
        /\ (T.r = 2) = IsCtrl(k, 99)
        /\ (T.r = 3) = (IsCtrl(k, 100) /\ s = <<>>)
        /\ (IsCh(k, NL) /\ S.e.cp = <<>> /\ cont) => Txt(T) = InsertText(shown, at, <<NL>>)

(* P21 *)
CallbackLaw(cfg, S, ev, T) ==
    ev.op = "key" =>
    LET lg == T.lg  n == Len(lg)
        xs == [i \in 1..n |-> lg[i].x]
        shownKey == IF IsCtrl(ev.k, 104) THEN Key("Backspace", 0) ELSE ev.k
    IN  /\ n >= 1 /\ xs[1] = "B" /\ lg[1].k = ev.k
        /\ lg[1].t = Txt(S) /\ lg[1].c = S.e.cur /\ lg[1].h = S.e.loc
        /\ IF T.r \in {2, 3} THEN xs = <<"B">>
           ELSE IF IsCh(ev.k, TAB) THEN xs = <<"B", "C", "A">>
           ELSE xs = <<"B", "A">>
        /\ (xs[n] = "A") => lg[n].k = shownKey
        /\ (xs[n] = "A" /\ cfg.hook.on # "A") => lg[n].t = Txt(T) /\ lg[n].c = T.e.cur /\ lg[n].h = T.e.loc

(* P22 *)
RECURSIVE JoinLines(_)
JoinLines(l) == IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o <<NL>> \o JoinLines(Tail(l))
ColourLaw(cfg, T) ==
    LET b == Body(T.e.dr)
        a == ColourArgs(TextLines(b), Len(T.e.dr.t))
    IN  StartsWithText(b, JoinLines(a)) /\ Len(JoinLines(a)) <= Len(T.e.dr.t)
        /\ (Len(JoinLines(a)) < Min2(Len(b), Len(T.e.dr.t)) => b[Len(JoinLines(a)) + 1] = NL)

(* P23 *)
\* ghost: <<>> or <<from, to>> of the word the series put there; a third 1 if
\* a key since then left the line and the cursor alone, which may end it or not
ArgKey(ev) == IsKeyEv(ev) /\ ev.k.k = "Alt" /\ ev.k.c = 46
ArgPut(S, T, a, b) ==
    LET x == Slice(Txt(T), a, Len(Txt(T)) - (Len(Txt(S)) - b))
    IN  /\ Around(Txt(S), Txt(T), a, b)
        /\ T.e.cur = a + Len(x)
        /\ \E i \in DOMAIN S.e.h.buf : LastArg(S.e.h.buf[i]) = IF x = <<>> THEN <<>> ELSE <<x>>
ArgLaw(cfg, S, ev, T, g) ==
    (ArgKey(ev) /\ Txt(T) # Txt(S)) =>
        \/ g # <<>> /\ ArgPut(S, T, g[1], g[2])
        \/ Len(g) # 2 /\ ArgPut(S, T, S.e.cur, S.e.cur)
Maps(k) == k.k \notin {"Char", "Right"} /\ ~(k.k = "Ctrl" /\ k.c \in {114, 115, 102, 108, 99, 100})
ArgGhost(cfg, S, ev, T, g) ==
    IF ~ArgKey(ev)
    THEN IF g = <<>> \/ Txt(T) # Txt(S) \/ T.e.cur # S.e.cur \/ (IsKeyEv(ev) /\ Maps(ev.k)) THEN <<>>
         ELSE <<g[1], g[2], 1>>
    ELSE IF Len(S.e.h.buf) = 0 THEN <<>>
    ELSE IF g = <<>> \/ (Len(g) = 3 /\ ~ArgPut(S, T, g[1], g[2])) THEN <<S.e.cur, T.e.cur>>
    ELSE <<g[1], T.e.cur>>

(* P24 *)
IndicatorLaw(cfg, S, ev, T) ==
    /\ (TopMode(T.v).m = "I" /\ T.r = 0) => T.e.pm = "I" /\ T.e.dr.pm = "I"
    /\ (InNormal(T) /\ T.r = 0) => T.e.pm = "N" /\ T.e.dr.pm = "N"
    /\ (~InNormal(T) /\ TopMode(T.v).m # "I" /\ InNormal(S)) => T.e.pm \in {"N", "I"}

----------------------------------------------------------------------------
GhostInit(law, S) ==
    CASE law = "P04" -> [past |-> <<>>, future |-> <<>>, st |-> Txt(S)]
      [] law = "P08" -> [run |-> <<Ch(105)>>, last |-> <<>>, st |-> Txt(S)]
      [] OTHER -> <<>>
Ghost(law, cfg, S, ev, T, g) ==
    CASE law = "P04" -> UndoGhost(cfg, S, ev, T, g)
      [] law = "P08" -> DotGhost(cfg, S, ev, T, g)
      [] law = "P23" -> ArgGhost(cfg, S, ev, T, g)
      [] OTHER -> <<>>
Law(law, cfg, base, S, ev, T, g) ==
    /\ CursorSafe(cfg, T)
    /\ CASE law = "P04" -> UndoLaw(cfg, S, ev, T, g)
         [] law = "P05" -> EmacsLaw(cfg, S, ev, T)
         [] law = "P06" -> MotionLaw(cfg, S, ev, T)
         [] law = "P07" -> CommandLaw(cfg, S, ev, T)
         [] law = "P08" -> DotLaw(cfg, S, ev, T, g)
         [] law = "P09" -> BrowseLaw(cfg, S, ev, T)
         [] law = "P10" -> SearchLaw(cfg, S, ev, T)
         [] law = "P11" -> SuggestLaw(cfg, S, ev, T)
         [] law = "P12" -> CompleteLaw(cfg, S, ev, T)
         [] law = "P13" -> ScreenLaw(cfg, base, T)
         [] law = "P14" -> EndLaw(cfg, S, ev, T)
         [] law = "P21" -> CallbackLaw(cfg, S, ev, T)
         [] law = "P22" -> ColourLaw(cfg, T)
         [] law = "P23" -> ArgLaw(cfg, S, ev, T, g)
         [] law = "P24" -> IndicatorLaw(cfg, S, ev, T)
         [] OTHER -> TRUE
=============================================================================
