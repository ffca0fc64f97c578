--------------------------------- MODULE Vi ---------------------------------
(***************************************************************************)
(* Vi bindings.  A state is s = [e, v]:                                    *)
(*   v.ms  stack of modes, empty for normal mode                           *)
(*   v.cc  keys of the operator under way   v.ci  key it inserts with      *)
(*   v.lc  keys of the last change          v.li  key it inserts with      *)
(*   v.n   count   v.n2  operator's count   v.ln  count of the last change *)
(*   v.mr  cursor moved while inserting     v.lm  last character search    *)
(* A key is [k, c]; "none" is <<>>.                                        *)
(***************************************************************************)
EXTENDS Editor

Key(k, c) == [k |-> k, c |-> c]
Ch(c) == Key("Char", c)
Esc == Key("Esc", 0)
IsCh(key, c) == key.k = "Char" /\ key.c = c
IsKey(key, k) == key.k = k

MaxCount == 30000        \* counts beyond any line's length are alike
CapCount(n) == Min2(n, MaxCount)

\* Modes: I insert, R replace, D delete or change, M move to a character,
\* G after g, T toggling case.
Mode(m, p, x) == [m |-> m, p |-> p, x |-> x]
ModeI == Mode("I", 0, "")
TopMode(v) == IF v.ms = <<>> THEN Mode("N", 0, "") ELSE v.ms[Len(v.ms)]

ViInit == [ms |-> <<ModeI>>, cc |-> <<>>, lc |-> <<>>, ci |-> <<>>, li |-> <<Ch(105)>>,
           n |-> 0, n2 |-> 0, ln |-> 0, mr |-> FALSE, lm |-> <<>>]

ShowMode(s) ==
    LET m == TopMode(s.v).m IN
    CASE m = "I" -> [s EXCEPT !.e = Display([@ EXCEPT !.pm = IF @ = "-" THEN "-" ELSE "I"])]
      [] m = "N" -> [s EXCEPT !.e = Display([@ EXCEPT !.pm = IF @ = "-" THEN "-" ELSE "N"])]
      [] OTHER -> s

EnterMode(s, mode) ==        \* keeping what is to be repeated
    LET s1 == ShowMode([e |-> [s.e EXCEPT !.ne = FALSE],
                        v |-> [s.v EXCEPT !.mr = mode.m # "I", !.ms = Append(@, mode)]])
    IN  IF mode.m \in {"I", "T"} THEN [s1 EXCEPT !.e = EdStartGroup(@)] ELSE s1
EnterInsert(s) == LET s1 == EnterMode(s, ModeI)
                  IN  [s1 EXCEPT !.v.ln = 0, !.v.lc = <<>>]

SetFlags(s) == [e |-> [s.e EXCEPT !.ne = (TopMode(s.v).m = "N")],
                v |-> [s.v EXCEPT !.mr = (TopMode(s.v).m # "I")]]
DropMode(v) == IF v.ms = <<>> THEN v ELSE [v EXCEPT !.ms = Front(@)]

LeaveMode(s) ==
    LET last == TopMode(s.v).m
        s1 == SetFlags([s EXCEPT !.v = DropMode(@)])
        s2 == IF last \in {"I", "T"} THEN [s1 EXCEPT !.e = EdEndGroup(@)] ELSE s1
        s3 == IF last = "T" THEN [s2 EXCEPT !.e = Display(@)] ELSE s2
    IN  ShowMode(s3)

\* The last change is the operator under way.
Remember(v, count) == [v EXCEPT !.lc = v.cc, !.cc = v.lc, !.li = v.ci, !.ln = count]

AfterMove(s, incl) ==
    LET orig == TopMode(s.v).m
        v1 == DropMode(s.v)
        under == TopMode(v1)
        last == IF under.m = "D" THEN under ELSE TopMode(s.v)
        v2 == IF under.m = "D" THEN DropMode(v1) ELSE v1
        s1 == SetFlags([s EXCEPT !.v = v2])
        s2 == IF last.m = "D"
              THEN [e |-> IF incl THEN DeleteUntilIncl(s1.e, last.p) ELSE DeleteUntil(s1.e, last.p),
                    v |-> [Remember(s1.v, s1.v.n) EXCEPT !.n = 0, !.n2 = 0]]
              ELSE s1
        s3 == IF orig = "N" THEN [s2 EXCEPT !.v.n = 0] ELSE s2
    IN  ShowMode(s3)

\* A command that is given up: back to normal mode, nothing pending.
RECURSIVE EndGroups(_, _)
EndGroups(e, k) == IF k = 0 THEN e ELSE EndGroups(EdEndGroup(e), k - 1)
Abort(s) ==
    LET open == Cardinality({i \in DOMAIN s.v.ms : s.v.ms[i].m \in {"I", "T"}})
    IN  ShowMode([e |-> [EndGroups(s.e, open) EXCEPT !.ne = TRUE],
                  v |-> [s.v EXCEPT !.ms = <<>>, !.n = 0]])

Count(v) == IF v.n = 0 THEN 1 ELSE v.n
CountRight(s) == Min2(CurLen(s.e) - s.e.cur, Count(s.v))
CountLeft(s) == Min2(s.e.cur, Count(s.v))

----------------------------------------------------------------------------
(* Motions, as functions from a line and a place to a place *)
Class(c, big) == IF IsWs(c) THEN 0 ELSE IF big \/ IsKeyword(c) THEN 1 ELSE 2
\* character number j (0-based) starts / ends a word
StartsWord(t, big, j) == ~IsWs(t[j + 1]) /\ (j = 0 \/ Class(t[j], big) # Class(t[j + 1], big))
EndsWord(t, big, j) == ~IsWs(t[j + 1]) /\ (j + 1 = Len(t) \/ Class(t[j + 2], big) # Class(t[j + 1], big))
Least(S, dflt) == IF S = {} THEN dflt ELSE MinOf(S)
Greatest(S, dflt) == IF S = {} THEN dflt ELSE MaxOf(S)

NextStart(t, big, c) == Least({j \in (c + 1)..(Len(t) - 1) : StartsWord(t, big, j)}, Len(t))
NextEnd(t, big, c)   == Least({j \in (c + 1)..(Len(t) - 1) : EndsWord(t, big, j)}, Len(t))
PrevStart(t, big, c) == Greatest({j \in 0..(c - 1) : StartsWord(t, big, j)}, 0)
PrevEnd(t, big, c)   == Greatest({j \in 0..(c - 1) : EndsWord(t, big, j)}, 0)

RECURSIVE Times(_, _, _)
Times(F(_), n, c) == IF n = 0 \/ F(c) = c THEN c ELSE Times(F, n - 1, F(c))

\* place of the n-th x to the right / left of c, <<>> if there is none
RightOf(t, c, x, n) ==
    LET ix == SelectSeq([i \in 1..Len(t) |-> i - 1], LAMBDA i : i > c /\ t[i + 1] = x)
    IN  IF Len(ix) < n THEN <<>> ELSE <<ix[n]>>
LeftOf(t, c, x, n) ==
    LET ix == SelectSeq([i \in 1..Len(t) |-> i - 1], LAMBDA i : i < c /\ t[i + 1] = x)
    IN  IF Len(ix) < n THEN <<>> ELSE <<ix[Len(ix) + 1 - n]>>

----------------------------------------------------------------------------
(* Keys.  VCore is the whole keymap; the operators below are its modes.    *)
RECURSIVE VCore(_, _)
RECURSIVE VKeys(_, _)
VKeys(s, keys) == IF keys = <<>> THEN s ELSE VKeys(VCore(s, Head(keys)), Tail(keys))

\* Repeating stops when the command repeated was given up half way.
RECURSIVE VKeysIns(_, _)
VKeysIns(s, keys) == IF keys = <<>> \/ TopMode(s.v).m = "N" THEN s
                     ELSE VKeysIns(VCore(s, Head(keys)), Tail(keys))

Common(s, key) ==
    CASE key.k = "Ctrl" /\ key.c = 108 -> [s EXCEPT !.e = ClearScreen(@)]
      [] key.k = "Left" -> [s EXCEPT !.e = MoveLeft(@, 1)]
      [] key.k = "Right" -> [s EXCEPT !.e = MoveRight(@, 1)]
      [] key.k = "Up" -> [s EXCEPT !.e = MoveUp(@)]
      [] key.k = "Down" -> [s EXCEPT !.e = MoveDown(@)]
      [] key.k = "Home" -> [s EXCEPT !.e = MoveStart(@)]
      [] key.k = "End" -> [s EXCEPT !.e = MoveEnd(@)]
      [] key.k = "Backspace" -> [s EXCEPT !.e = DeleteBefore(@)]
      [] key.k = "Delete" -> [s EXCEPT !.e = DeleteAfter(@)]
      [] OTHER -> s

\* Typing after the cursor was moved starts a new insertion.
FreshInsertion(s) ==
    IF ~s.v.mr THEN s
    ELSE [e |-> EdStartGroup(EdEndGroup(s.e)),
          v |-> [s.v EXCEPT !.lc = <<>>, !.mr = FALSE, !.li = <<Ch(105)>>]]

RECURSIVE RepeatInsertion(_, _)
RepeatInsertion(s, k) ==
    IF k = 0 THEN s
    ELSE RepeatInsertion(VKeys([s EXCEPT !.v.lc = <<>>], s.v.lc), k - 1)

InsertKey(s, key) ==
    CASE key.k = "Esc" \/ (key.k = "Ctrl" /\ key.c = 91) ->
           LET s1 == IF s.v.n > 0
                     THEN [RepeatInsertion([s EXCEPT !.v.ln = s.v.n], s.v.n - 1) EXCEPT !.v.n = 0]
                     ELSE s
           IN  LeaveMode([s1 EXCEPT !.e = MoveLeft(@, 1)])
      [] key.k = "Char" ->
           LET s1 == FreshInsertion(s)
           IN  [e |-> InsText(s1.e, <<key.c>>), v |-> [s1.v EXCEPT !.lc = Append(@, key)]]
      [] key.k \in {"Backspace", "Delete"} ->
           LET s1 == FreshInsertion(s) IN Common([s1 EXCEPT !.v.lc = Append(@, key)], key)
      [] key.k \in {"Left", "Right", "Home", "End"} ->
           Common([s EXCEPT !.v.n = 0, !.v.mr = TRUE], key)
      [] key.k \in {"Up", "Down"} ->
           LET e1 == EdEndGroup(s.e)
               e2 == IF key.k = "Up" THEN MoveUp(e1) ELSE MoveDown(e1)
           IN  [e |-> EdStartGroup(e2), v |-> [s.v EXCEPT !.n = 0, !.mr = TRUE]]
      [] OTHER -> Common(s, key)

\* A simple change: what dot repeats is the key itself.
Simple(v, key, count) == [v EXCEPT !.li = <<>>, !.lc = <<key>>, !.ln = count]

Motion(s, place, incl) == AfterMove([s EXCEPT !.e = MoveTo(@, place)], incl)
WordMotion(s, F(_, _, _), big, incl) ==
    LET t == CurText(s.e)
        step(c) == F(t, big, c)
    IN  Motion(s, Times(step, Count(s.v), s.e.cur), incl)

Opposite(x) == CASE x = "t" -> "T" [] x = "T" -> "t" [] x = "f" -> "F" [] OTHER -> "f"
\* kind x: t, T, f, F, or again, back
CharSearch(s, key, x) ==
    LET v == s.v
        known == v.lm # <<>>
        isRep == x \in {"again", "back"}
        c    == IF isRep THEN v.lm[1] ELSE key.c
        kind == IF x = "again" THEN v.lm[2] ELSE IF x = "back" THEN Opposite(v.lm[2]) ELSE x
        v1   == IF isRep THEN v ELSE [v EXCEPT !.lm = <<key.c, x>>, !.cc = Append(@, key)]
        t    == CurText(s.e)
        hit  == IF kind \in {"t", "f"} THEN RightOf(t, s.e.cur, c, Count(v))
                ELSE LeftOf(t, s.e.cur, c, Count(v))
        place == CASE kind = "t" -> hit[1] - 1 [] kind = "T" -> hit[1] + 1 [] OTHER -> hit[1]
    IN  IF (isRep /\ ~known) \/ (~isRep /\ key.k # "Char") THEN Abort(s)
        ELSE IF hit = <<>> THEN Abort([s EXCEPT !.v = v1])
        ELSE LET s1 == Motion([s EXCEPT !.v = v1], place, kind \in {"t", "f"})
             IN  [s1 EXCEPT !.v.n = 0]

RECURSIVE InsertEach(_, _)
InsertEach(e, t) == IF t = <<>> THEN e ELSE InsertEach(InsText(e, <<Head(t)>>), Tail(t))
RECURSIVE Toggle(_, _)
Toggle(e, k) ==
    IF k = 0 THEN e
    ELSE LET c == CurText(e)[e.cur + 1]
             step == IF IsLower(c) THEN InsertEach(DeleteAfter(e), ToUpper(c))
                     ELSE IF IsUpper(c) THEN InsertEach(DeleteAfter(e), ToLower(c))
                     ELSE MoveRight(e, 1)
         IN  Toggle(step, k - 1)

RECURSIVE UndoTimes(_, _)
UndoTimes(e, k) ==
    IF k = 0 THEN e
    ELSE IF ~EdCanUndo(e) THEN EdUndo(e)
    ELSE UndoTimes(EdUndo(e), k - 1)
RECURSIVE RedoTimes(_, _)
RedoTimes(e, k) ==
    IF k = 0 THEN e
    ELSE IF ~EdCanRedo(e) THEN EdRedo(e)
    ELSE RedoTimes(EdRedo(e), k - 1)

Dot(s) ==
    LET count == IF s.v.n # 0 THEN s.v.n ELSE IF s.v.ln # 0 THEN s.v.ln ELSE 1
        keys == s.v.lc
        ins  == s.v.li
        s0 == [s EXCEPT !.v.n = count, !.v.ln = count, !.v.lc = <<>>]
        s1 == IF ins # <<>> THEN VKeysIns(VCore(s0, ins[1]), keys) ELSE VKeys(s0, keys)
        s2 == IF TopMode(s1.v).m = "I" THEN VCore(s1, Esc) ELSE s1
    IN  [s2 EXCEPT !.v.lc = keys]

NormalKey(s, key) ==
    LET e == s.e
        v == s.v
        ch == IF key.k = "Char" THEN key.c ELSE -1
        Insert == EnterInsert([s EXCEPT !.v.li = <<key>>])
    IN
    CASE key.k = "Esc" -> [s EXCEPT !.v.n = 0]
      [] ch = 105 -> Insert                                                \* i
      [] ch = 97  -> [Insert EXCEPT !.e = MoveRight(@, 1)]                 \* a
      [] ch = 65  -> [Insert EXCEPT !.e = MoveEnd(@)]                      \* A
      [] ch = 73  -> [Insert EXCEPT !.e = MoveStart(@)]                    \* I
      [] ch = 115 -> LET s1 == Insert                                      \* s
                     IN  [e |-> DeleteUntil(s1.e, s1.e.cur + CountRight(s1)),
                          v |-> [s1.v EXCEPT !.ln = s1.v.n, !.n = 0]]
      [] ch = 114 -> EnterMode(s, Mode("R", 0, ""))                        \* r
      [] ch = 100 -> LET s1 == EnterMode([s EXCEPT !.v.ci = <<>>, !.v.cc = <<key>>],
                                         Mode("D", e.cur, ""))             \* d
                     IN  [s1 EXCEPT !.v.n2 = s1.v.n, !.v.n = 0]
      [] ch = 99  -> LET s0 == EnterMode([s EXCEPT !.v.ci = <<key>>, !.v.cc = <<>>], ModeI)
                         s1 == EnterMode(s0, Mode("D", s0.e.cur, ""))      \* c
                     IN  [s1 EXCEPT !.v.n2 = s1.v.n, !.v.n = 0]
      [] ch = 68  -> [e |-> DeleteAllAfter(e), v |-> [Simple(v, key, 0) EXCEPT !.n = 0]]  \* D
      [] ch = 67  -> LET s1 == EnterMode([s EXCEPT !.v = [Simple(v, key, 0) EXCEPT !.n = 0]], ModeI)
                     IN  [s1 EXCEPT !.e = DeleteAllAfter(@)]               \* C
      [] ch = 46  -> Dot(s)                                                \* .
      [] ch = 104 \/ key.k \in {"Left", "Backspace"} ->
           AfterMove([s EXCEPT !.e = MoveLeft(e, CountLeft(s))], FALSE)    \* h
      [] ch \in {108, 32} \/ key.k = "Right" ->
           AfterMove([s EXCEPT !.e = MoveRight(e, CountRight(s))], FALSE)  \* l
      [] ch = 107 \/ key.k = "Up" -> AfterMove([s EXCEPT !.e = MoveUp(e)], FALSE)
      [] ch = 106 \/ key.k = "Down" -> AfterMove([s EXCEPT !.e = MoveDown(e)], FALSE)
      [] ch = 116 -> EnterMode(s, Mode("M", 0, "t"))
      [] ch = 84  -> EnterMode(s, Mode("M", 0, "T"))
      [] ch = 102 -> EnterMode(s, Mode("M", 0, "f"))
      [] ch = 70  -> EnterMode(s, Mode("M", 0, "F"))
      [] ch = 59  -> CharSearch(s, key, "again")                           \* ;
      [] ch = 44  -> CharSearch(s, key, "back")                            \* ,
      [] ch = 119 -> WordMotion(s, NextStart, FALSE, FALSE)                \* w
      [] ch = 87  -> WordMotion(s, NextStart, TRUE, FALSE)                 \* W
      [] ch = 101 -> WordMotion(s, NextEnd, FALSE, TRUE)                   \* e
      [] ch = 69  -> WordMotion(s, NextEnd, TRUE, TRUE)                    \* E
      [] ch = 98  -> WordMotion(s, PrevStart, FALSE, FALSE)                \* b
      [] ch = 66  -> WordMotion(s, PrevStart, TRUE, FALSE)                 \* B
      [] ch = 103 -> EnterMode(s, Mode("G", 0, ""))                        \* g
      [] (ch = 48 /\ v.n = 0) \/ ch = 94 \/ key.k = "Home" ->
           AfterMove([s EXCEPT !.e = MoveStart(e)], FALSE)                 \* 0 ^
      [] ch \in 48..57 -> [s EXCEPT !.v.n = CapCount(@ * 10 + (ch - 48))]
      [] ch = 36 \/ key.k = "End" -> AfterMove([s EXCEPT !.e = MoveEnd(e)], FALSE)   \* $
      [] ch = 120 \/ key.k = "Delete" ->                                   \* x
           [e |-> DeleteUntil(e, e.cur + CountRight(s)),
            v |-> [Simple(v, key, v.n) EXCEPT !.n = 0]]
      [] ch = 126 ->                                                       \* ~
           LET s1 == EnterMode([s EXCEPT !.v = Simple(v, key, v.n)], Mode("T", 0, ""))
               s2 == [s1 EXCEPT !.e = Toggle(@, CountRight(s1))]
           IN  LeaveMode([s2 EXCEPT !.v.n = 0])
      [] ch = 117 -> [e |-> UndoTimes(e, Count(v)), v |-> [v EXCEPT !.n = 0]]        \* u
      [] key.k = "Ctrl" /\ key.c = 114 -> [e |-> RedoTimes(e, Count(v)), v |-> [v EXCEPT !.n = 0]]
      [] OTHER -> Common([s EXCEPT !.v.n = 0], key)

RECURSIVE ReplaceChars(_, _, _)
ReplaceChars(e, c, k) ==
    IF k = 0 THEN e ELSE ReplaceChars(InsText(DeleteAfter(e), <<c>>), c, k - 1)
ReplaceKey(s, key) ==
    IF key.k # "Char" THEN Abort(s)
    ELSE LET k == CountRight(s)
             enough == k = Count(s.v)
             s1 == [e |-> MoveLeft(EdEndGroup(ReplaceChars(EdStartGroup(s.e), key.c, k)), 1),
                    v |-> [s.v EXCEPT !.li = <<>>, !.lc = <<Ch(114), key>>, !.ln = s.v.n]]
         IN  [LeaveMode(IF enough THEN s1 ELSE s) EXCEPT !.v.n = 0]

MotionChars == {104, 108, 119, 87, 98, 66, 101, 69, 103, 32, 94, 36, 116, 102, 84, 70, 59, 44}
IsMotionKey(key) == IF key.k = "Char" THEN key.c \in MotionChars
                    ELSE key.k \in {"Left", "Right", "Backspace", "Home", "End"}

OperatorKey(s, key) ==
    LET v == s.v IN
    CASE IsMotionKey(key) \/ (IsCh(key, 48) /\ v.n = 0) ->
           LET n == IF v.n = 0 THEN v.n2 ELSE IF v.n2 = 0 THEN v.n ELSE CapCount(v.n * v.n2)
           IN  NormalKey([s EXCEPT !.v.n = n, !.v.cc = Append(@, key)], key)
      [] key.k = "Char" /\ IsDigit(key.c) -> NormalKey(s, key)
      [] (IsCh(key, 99) /\ v.ci = <<Ch(99)>>) \/ (IsCh(key, 100) /\ v.ci = <<>>) ->
           LET v1 == Remember([v EXCEPT !.cc = Append(@, key)], 0)
           IN  LeaveMode([e |-> DeleteAllAfter(MoveStart(s.e)),
                          v |-> [v1 EXCEPT !.n = 0, !.n2 = 0]])
      [] OTHER -> Abort(s)

GKey(s, key) ==
    IF key.k = "Char" /\ key.c \in {101, 69} /\ s.e.cur > 0
    THEN [WordMotion([s EXCEPT !.v.cc = Append(@, key)], PrevEnd, key.c = 69, TRUE) EXCEPT !.v.n = 0]
    ELSE Abort([s EXCEPT !.v.cc = Append(@, key)])

VCore(s, key) ==
    LET m == TopMode(s.v) IN
    CASE m.m = "I" -> InsertKey(s, key)
      [] m.m = "R" -> ReplaceKey(s, key)
      [] m.m = "D" -> OperatorKey(s, key)
      [] m.m = "M" -> CharSearch(s, key, m.x)
      [] m.m = "G" -> GKey(s, key)
      [] OTHER -> NormalKey(s, key)

\* A session starts inserting.
ViStart(e) == ShowMode([e |-> EdStartGroup(e), v |-> ViInit])
=============================================================================
