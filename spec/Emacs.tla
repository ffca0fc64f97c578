------------------------------- MODULE Emacs -------------------------------
(***************************************************************************)
(* Emacs bindings.  A state is s = [e, m]; m remembers a series of Alt-.:  *)
(*   m.la  entry fetched last (-1: no series)                              *)
(*   m.a   where its word was inserted; the cursor was left behind it      *)
(*   m.c, m.t  cursor and line it left                                     *)
(***************************************************************************)
EXTENDS Editor

EmacsInit == [la |-> -1, a |-> 0, c |-> 0, t |-> <<>>]

\* The end of the word ahead, the start of the word behind.
WordAhead(l, c) == LET S == {w \in ToSet(l) : w[2] > c}
                   IN  IF S = {} THEN <<>> ELSE <<MinOf({w[2] : w \in S})>>
WordBehind(l, c) == LET S == {w \in ToSet(l) : w[1] < c}
                    IN  IF S = {} THEN <<>> ELSE <<MaxOf({w[1] : w \in S})>>
ToWord(e, tgt, dflt) == IF tgt # <<>> THEN MoveTo(e, tgt[1])
                        ELSE IF dflt THEN Display(e) ELSE e

LastArgFetch(s) ==
    LET e == s.e
        m == s.m
        n == Len(e.h.buf)
        going == m.la # -1 /\ e.cur = m.c /\ CurText(e) = m.t
    IN  IF n = 0 \/ (going /\ m.la = 0) THEN s
        ELSE
        LET i == IF going THEN Min2(m.la, n) - 1 ELSE IF e.loc # -1 THEN e.loc ELSE n - 1
            e1 == IF going THEN DeleteUntil(e, m.a) ELSE e
            la == LastArg(e.h.buf[i + 1])
            e2 == IF la = <<>> THEN e1 ELSE InsText(e1, la[1])
        IN  [s EXCEPT !.e = e2,
                      !.m = [la |-> i, a |-> e1.cur, c |-> e2.cur, t |-> CurText(e2)]]

EmacsCtrl(e, c) ==
    CASE c = 108 -> ClearScreen(e)              \* l
      [] c = 97  -> MoveStart(e)                \* a
      [] c = 101 -> MoveEnd(e)                  \* e
      [] c = 98  -> MoveLeft(e, 1)              \* b
      [] c = 102 -> MoveRight(e, 1)             \* f
      [] c = 100 -> DeleteAfter(e)              \* d
      [] c = 112 -> MoveUp(e)                   \* p
      [] c = 110 -> MoveDown(e)                 \* n
      [] c = 117 -> DeleteAllBefore(e)          \* u
      [] c = 107 -> DeleteAllAfter(e)           \* k
      [] c = 119 -> DeleteWordBefore(e, TRUE)   \* w
      [] c = 120 -> EdUndo(e)                   \* x
      [] OTHER -> e
EmacsAlt(e, c) ==
    CASE c = 60  -> MoveOldest(e)               \* <
      [] c = 62  -> MoveNewest(e)               \* >
      [] c = 127 -> DeleteWordBefore(e, TRUE)   \* Backspace
      [] c = 102 -> LET w == WordsOf(e) IN ToWord(e, WordAhead(w, e.cur),
                        w # <<>> /\ e.cur = w[Len(w)][2])
      [] c = 98  -> LET w == WordsOf(e) IN ToWord(e, WordBehind(w, e.cur),
                        w # <<>> /\ e.cur = w[1][1])
      [] c = 114 -> EdRevert(e)                 \* r
      [] OTHER -> e

EmacsKey(s, key) ==
    IF key.k = "Alt" /\ key.c = 46 THEN LastArgFetch(s)
    ELSE [s EXCEPT !.m = EmacsInit, !.e =
            CASE key.k = "Char" -> InsText(s.e, <<key.c>>)
              [] key.k = "Alt"  -> EmacsAlt(s.e, key.c)
              [] key.k = "Ctrl" -> EmacsCtrl(s.e, key.c)
              [] key.k = "Left" -> MoveLeft(s.e, 1)
              [] key.k = "Right" -> MoveRight(s.e, 1)
              [] key.k = "Up" -> MoveUp(s.e)
              [] key.k = "Down" -> MoveDown(s.e)
              [] key.k = "Home" -> MoveStart(s.e)
              [] key.k = "End" -> MoveEnd(s.e)
              [] key.k = "Backspace" -> DeleteBefore(s.e)
              [] key.k = "Delete" -> DeleteAfter(s.e)
              [] OTHER -> s.e]
=============================================================================
