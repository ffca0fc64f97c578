------------------------------- MODULE Editor -------------------------------
(***************************************************************************)
(* The line editor: the line being typed, browsing and searching history,  *)
(* suggestions, completion, undo, and the operations keymaps are built of. *)
(*                                                                         *)
(* An editor e:                                                            *)
(*   h    the history (see History)      f    the history file             *)
(*   nb   buffer of the new line         hb   private copy of an entry     *)
(*   hv   the private copy is in use     loc  entry recalled, -1 for none  *)
(*   cur  the cursor                     ne   the cursor must be on a char *)
(*   rs,fs  searching backward, forward  bc   line changed since refresh   *)
(*   sub  entries searched or browsed    sl   place among them, -1 if none *)
(*   sg   suggestion, <<>> or <<text>>   cp   <<>> or <<candidates, index>>*)
(*   fr   history already reloaded       pm   mode shown by the prompt     *)
(*   dr   what was last drawn            args what completers were asked   *)
(*   wd   the word divider               pr   the prompt                   *)
(* Indices of entries and candidates are 0-based.                          *)
(***************************************************************************)
EXTENDS History, Words

Searching(e) == e.rs \/ e.fs
CurText(e) == IF e.loc = -1 THEN e.nb.d
              ELSE IF e.hv THEN e.hb.d ELSE e.h.buf[e.loc + 1]
CurLen(e) == Len(CurText(e))

\* Editing a recalled entry works on a private copy that knows no other text.
Own(e) == IF e.loc = -1 \/ e.hv THEN [e EXCEPT !.bc = TRUE]
          ELSE [e EXCEPT !.bc = TRUE, !.hb = NewBuf(e.h.buf[e.loc + 1]), !.hv = TRUE]
OwnBuf(e) == IF e.loc = -1 THEN e.nb ELSE e.hb
PutBuf(e, b) == IF e.loc = -1 THEN [e EXCEPT !.nb = b] ELSE [e EXCEPT !.hb = b]
Edit(e, F(_)) == LET o == Own(e) IN PutBuf(o, F(OwnBuf(o)))

----------------------------------------------------------------------------
(* Drawing: the search is refreshed, the suggestion worked out, and the    *)
(* cursor put back on the line.                                            *)

\* (Re)start the search for the text of the new line, staying on the match
\* shown if it still is one, else going on to the nearest one in direction.
RefreshSearch(e, fwd) ==
    LET old == IF e.sl >= 0 /\ e.sl < Len(e.sub) THEN e.sub[e.sl + 1] ELSE -1
        idx == SearchIndex(e.h.buf, e.nb.d)
        n   == Len(idx)
        notBefore == {i \in 1..n : old <= idx[i]}
        dflt == IF fwd THEN 0 ELSE n - 1
        sl  == IF n = 0 THEN -1
               ELSE IF old = -1 \/ notBefore = {} THEN dflt
               ELSE LET i == MinOf(notBefore)
                    IN  IF fwd \/ idx[i] = old \/ i = 1 THEN i - 1 ELSE i - 2
    IN  [e EXCEPT !.sub = idx, !.sl = sl, !.rs = ~fwd, !.fs = fwd,
                  !.loc = -1, !.hv = FALSE, !.bc = FALSE]

SuggestionFor(e) ==
    IF e.hv THEN <<>>
    ELSE IF Searching(e) THEN
         IF e.sl >= 0 /\ e.sl < Len(e.sub) THEN <<e.h.buf[e.sub[e.sl + 1] + 1]>> ELSE <<>>
    ELSE IF e.loc # -1 THEN <<e.h.buf[e.loc + 1]>>
    ELSE LET m == NewestMatch(e.h.buf, Len(e.h.buf), e.nb.d)
         IN  IF m = -1 THEN <<>> ELSE <<e.h.buf[m + 1]>>

\* What a drawing of the line depends on.
Snapshot(e, show) ==
    [t |-> CurText(e), c |-> e.cur, sg |-> IF show THEN e.sg ELSE <<>>, cp |-> e.cp,
     srch |-> Searching(e), place |-> IF e.sub = <<>> THEN 0 ELSE Max2(e.sl, 0) + 1,
     n |-> Len(e.sub), pm |-> e.pm, pr |-> e.pr, nl |-> ~show]

Draw(e, show) ==
    LET len == CurLen(e)
        c1 == Min2(e.cur, len)
        c2 == IF e.ne /\ c1 # 0 /\ c1 = len THEN c1 - 1 ELSE c1
        e1 == [e EXCEPT !.cur = c2]
    IN  [e1 EXCEPT !.dr = Snapshot(e1, show)]

Display(e) ==
    LET e1 == IF Searching(e) /\ e.bc THEN RefreshSearch(e, e.fs) ELSE e
    IN  Draw([e1 EXCEPT !.sg = SuggestionFor(e1)], TRUE)

\* The drawn state only matters to the screen: a projection without it.
NoSnap == [t |-> <<>>, c |-> 0, sg |-> <<>>, cp |-> <<>>, srch |-> FALSE,
           place |-> 0, n |-> 0, pm |-> "-", pr |-> <<>>, nl |-> FALSE]

----------------------------------------------------------------------------
(* Cursor movements *)
MoveTo(e, p)    == Display([e EXCEPT !.cur = Min2(p, CurLen(e))])
MoveStart(e)    == Display([e EXCEPT !.cur = 0])
MoveEnd(e)      == Display([e EXCEPT !.cur = CurLen(e)])
MoveLeft(e, n)  == Display([e EXCEPT !.cur = Max2(0, @ - n)])
MoveRight(e, n) == Display([e EXCEPT !.cur = Min2(CurLen(e), @ + n)])
AtEnd(e) == IF e.ne THEN e.cur + 1 = CurLen(e) ELSE e.cur = CurLen(e)

(* Edits of the line *)
InsText(e, t) ==
    LET c == e.cur IN Display([Edit(e, LAMBDA b : Ins(b, c, t)) EXCEPT !.cur = @ + Len(t)])
DeleteBefore(e) ==
    Display(IF e.cur > 0 THEN [Edit(e, LAMBDA b : Rem(b, e.cur - 1, e.cur)) EXCEPT !.cur = @ - 1]
            ELSE e)
DeleteAfter(e) ==
    Display(Edit(e, LAMBDA b : IF e.cur < Len(b.d) THEN Rem(b, e.cur, e.cur + 1) ELSE b))
DeleteAllBefore(e) == Display([Edit(e, LAMBDA b : Rem(b, 0, e.cur)) EXCEPT !.cur = 0])
DeleteAllAfter(e)  == Display(Edit(e, LAMBDA b : TruncateBuf(b, e.cur)))

\* between the cursor and a position, the position included or not
DeleteUntil(e, p) ==
    LET q == Min2(p, CurLen(e)) IN
    Display([Edit(e, LAMBDA b : Rem(b, Min2(e.cur, q), Max2(e.cur, q)))
             EXCEPT !.cur = Min2(e.cur, q)])
DeleteUntilIncl(e, p) ==
    LET n == CurLen(e)
        x == Min2(Min2(e.cur, p), n)
        y == Min2(Max2(e.cur, p) + 1, n)
    IN  Display([Edit(e, LAMBDA b : Rem(b, x, y)) EXCEPT !.cur = x])

\* The words of the line, by the divider in use.
WordsOf(e) == WordsBy(e.wd, CurText(e))

\* Word the cursor is in or right behind (skip: also behind blanks).
WordBefore(e, skip) ==
    LET w == WordsOf(e)
        p == CursorPos(e.cur, w)
    IN  CASE p.k \in {"W", "R"} -> <<w[p.a + 1]>>
          [] p.k = "S" /\ p.a # -1 /\ skip -> <<w[p.a + 1]>>
          [] p.k = "L" /\ p.a > 0 /\ skip -> <<w[p.a]>>
          [] OTHER -> <<>>
DeleteWordBefore(e, skip) ==
    LET w == WordBefore(e, skip) IN
    IF w = <<>> THEN Display(e)
    ELSE Display([Edit(e, LAMBDA b : Rem(b, w[1][1], e.cur)) EXCEPT !.cur = w[1][1]])

(* Undo *)
UndoOp(e, F(_), ok) ==
    LET o == Own(e) IN
    IF ok THEN MoveEnd(PutBuf(o, F(OwnBuf(o)))) ELSE Display(o)
EdCanUndo(e) == CanUndo(OwnBuf(Own(e)))
EdCanRedo(e) == CanRedo(OwnBuf(Own(e)))
EdUndo(e)   == UndoOp(e, UndoBuf, EdCanUndo(e))
EdRedo(e)   == UndoOp(e, RedoBuf, EdCanRedo(e))
EdRevert(e) == UndoOp(e, RevertBuf, EdCanUndo(e))
EdStartGroup(e) == Edit(e, StartGroup)
EdEndGroup(e)   == Edit(e, EndGroup)

----------------------------------------------------------------------------
(* Search *)
ClearSearch(e) == [e EXCEPT !.rs = FALSE, !.fs = FALSE, !.sl = -1, !.sub = <<>>]

\* A shared history is reloaded when browsing or searching starts.
Freshen(e) ==
    IF ~e.h.share \/ e.fr THEN e
    ELSE LET h1 == LoadHistory(e.h, e.f, FALSE).h
             e1 == [e EXCEPT !.h = h1, !.fr = TRUE]
         IN  IF e.loc >= Len(h1.buf)
             THEN [e1 EXCEPT !.loc = -1, !.hv = FALSE, !.sl = -1, !.sub = <<>>]
             ELSE e1

Search(e, fwd) ==
    Display(
      IF ~Searching(e) THEN RefreshSearch(Freshen(e), fwd)
      ELSE IF e.sub = <<>> \/ e.sl = -1 THEN e
      ELSE LET n == Len(e.sub) IN
           [e EXCEPT !.sl = IF fwd THEN (@ + 1) % n ELSE (@ + n - 1) % n])

Accept(e) ==
    LET o == Edit(e, LAMBDA b : IF e.sg = <<>> THEN b
                                ELSE IF Searching(e) THEN CopyInto(b, e.sg[1])
                                ELSE AppendRest(b, e.sg[1]))
    IN  MoveEnd(ClearSearch(o))

----------------------------------------------------------------------------
(* Browsing.  With an empty new line every entry is visited, otherwise the *)
(* entries of its subset; the place among them is found again if it was    *)
(* forgotten.                                                              *)
PlaceInSubset(e) ==
    IF e.sl # -1 THEN e
    ELSE LET sub == Subset(e.h.buf, e.nb.d)
             at == {i \in 1..Len(sub) : sub[i] = e.loc}
         IN  [e EXCEPT !.sub = sub, !.sl = IF at = {} THEN -1 ELSE MinOf(at) - 1]
GoSubset(e, i) == [e EXCEPT !.sl = i, !.loc = e.sub[i + 1]]

MoveUp(e) ==
    IF Searching(e) THEN Search(e, FALSE)
    ELSE
    LET e1 == Freshen([e EXCEPT !.hv = FALSE]) IN
    MoveEnd(
      IF e1.nb.d # <<>> THEN
         LET e2 == PlaceInSubset(e1) IN
         IF e2.sl > 0 THEN GoSubset(e2, e2.sl - 1)
         ELSE IF e2.sl = -1 /\ e2.loc = -1 /\ e2.sub # <<>> THEN GoSubset(e2, Len(e2.sub) - 1)
         ELSE e2
      ELSE IF e1.loc > 0 THEN [e1 EXCEPT !.loc = @ - 1]
      ELSE IF e1.loc = -1 THEN [e1 EXCEPT !.loc = Len(e1.h.buf) - 1]
      ELSE e1)

BackToNew(e) == [e EXCEPT !.loc = -1, !.sl = -1, !.sub = <<>>, !.fr = FALSE]
MoveDown(e) ==
    IF Searching(e) THEN Search(e, TRUE)
    ELSE
    LET e1 == [e EXCEPT !.hv = FALSE] IN
    MoveEnd(
      IF e1.nb.d # <<>> THEN
         IF e1.loc = -1 THEN e1
         ELSE LET e2 == PlaceInSubset(e1) IN
              IF e2.sl + 1 < Len(e2.sub) THEN GoSubset(e2, e2.sl + 1) ELSE BackToNew(e2)
      ELSE IF e1.loc # -1 /\ e1.loc + 1 < Len(e1.h.buf) THEN [e1 EXCEPT !.loc = @ + 1]
      ELSE [e1 EXCEPT !.loc = -1, !.fr = FALSE])

MoveOldest(e) ==
    LET e1 == [ClearSearch(e) EXCEPT !.hv = FALSE] IN
    IF e1.h.buf = <<>> THEN Display([e1 EXCEPT !.loc = -1])
    ELSE MoveEnd([e1 EXCEPT !.loc = 0])
MoveNewest(e) ==
    LET e1 == [ClearSearch(e) EXCEPT !.hv = FALSE] IN
    IF e1.loc # -1 THEN MoveEnd([e1 EXCEPT !.loc = -1]) ELSE Display(e1)

----------------------------------------------------------------------------
(* Enter, clearing the screen *)
Newline(e) ==      \* [e, done]
    LET e1 == [e EXCEPT !.fr = FALSE]
        e2 == ClearSearch(IF Searching(e1) THEN Accept(e1) ELSE e1)
        t  == CurText(e2)
    IN  IF e2.cp # <<>> THEN [e |-> [e2 EXCEPT !.cp = <<>>], done |-> FALSE]
        ELSE IF e2.cur > 0 /\ t[e2.cur] = BSL
             THEN [e |-> InsText(e2, <<NL>>), done |-> FALSE]
        ELSE [e |-> Draw([e2 EXCEPT !.cur = Len(t)], FALSE), done |-> TRUE]

ClearScreen(e) == Display([ClearSearch(e) EXCEPT !.cls = @ + 1])

----------------------------------------------------------------------------
(* Completion.  Cand(w) is what the completer answers for word w.          *)
RECURSIVE SortTexts(_)
SortTexts(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ LexLess(x, y)
                     IN  <<m>> \o SortTexts(S \ {m})
SharedPrefix(l) ==
    LET n == MinOf({Len(l[i]) : i \in DOMAIN l})
        k == MaxOf({k \in 0..n : \A i \in DOMAIN l : Take(l[i], k) = Take(l[1], k)})
    IN  Take(l[1], k)

\* The candidate inserted last ends at the cursor, or, where the cursor must
\* be on a character, at the end of the line.
ReplaceCand(e, old, new) ==
    LET t == CurText(e)
        at(y) == y >= Len(old) /\ Slice(t, y - Len(old), y) = old
        cut(y) == DeleteUntil([e EXCEPT !.cur = y], y - Len(old))
    IN  IF at(e.cur) THEN InsText(cut(e.cur), new)
        ELSE IF e.ne /\ e.cur + 1 = Len(t) /\ at(Len(t)) THEN InsText(cut(Len(t)), new)
        ELSE InsText(DeleteWordBefore(e, FALSE), new)

Complete(e, Cand(_)) ==
    IF e.cp # <<>> THEN
        LET list == e.cp[1]
            i == IF e.cp[2] = -1 THEN 0 ELSE (e.cp[2] + 1) % Len(list)
            e1 == [e EXCEPT !.cp = <<>>]
            e2 == IF e.cp[2] = -1 THEN InsText(DeleteWordBefore(e1, FALSE), list[i + 1])
                  ELSE ReplaceCand(e1, list[e.cp[2] + 1], list[i + 1])
        IN  Display([e2 EXCEPT !.cp = <<list, i>>])
    ELSE
    LET w == WordBefore(e, FALSE)
        o == Own(e)
        word == IF w = <<>> THEN <<>> ELSE Slice(CurText(e), w[1][1], e.cur)
        list == SortTexts(ToSet(Cand(word)))
        pre  == SharedPrefix(list)
        o1 == [o EXCEPT !.args = Append(@, word)]
    IN  IF list = <<>> THEN o1
        ELSE IF Len(list) = 1 THEN InsText(DeleteWordBefore(o1, FALSE), list[1])
        ELSE IF Len(pre) > Len(word) /\ StartsWithText(pre, word)
             THEN InsText(DeleteWordBefore(o1, FALSE), pre)
        ELSE Display([o1 EXCEPT !.cp = <<list, -1>>])

----------------------------------------------------------------------------
(* The line a finished (or abandoned) editor yields, and what is left when *)
(* it has been taken out: entries of the history stay.                     *)
Result(e) == CurText(e)
TakeLine(e) ==
    LET e1 == IF e.loc = -1 THEN [e EXCEPT !.nb = NewBuf(<<>>)]
              ELSE IF e.hv THEN [e EXCEPT !.hb = NewBuf(<<>>)] ELSE e
    IN  [e1 EXCEPT !.cur = Min2(@, CurLen(e1))]

NewEditor(h, f, init, pm, pr, wd) ==
    LET e == [h |-> h, f |-> f, nb |-> NewBuf(init), hb |-> NewBuf(<<>>), hv |-> FALSE,
              loc |-> -1, cur |-> 0, ne |-> FALSE, rs |-> FALSE, fs |-> FALSE, bc |-> FALSE,
              sub |-> <<>>, sl |-> -1, sg |-> <<>>, cp |-> <<>>, fr |-> FALSE, pm |-> pm,
              pr |-> pr, wd |-> wd, cls |-> 0, args |-> <<>>, dr |-> NoSnap]
    IN  Display(IF init = <<>> THEN e ELSE MoveEnd(e))
=============================================================================
