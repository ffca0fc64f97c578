---------------------------- MODULE UndoBuffer ----------------------------
(***************************************************************************)
(* A text buffer with its undo log.                                        *)
(*   b.d : the text                                                        *)
(*   b.a : recorded actions, oldest first                                  *)
(*   b.u : actions taken back, most recently taken back last               *)
(* An action is an insertion ("I"), a removal ("R"), or a group mark       *)
(* ("S" start, "E" end).                                                   *)
(***************************************************************************)
EXTENDS Chars

NewBuf(t) == [d |-> t, a |-> <<>>, u |-> <<>>]

Act(kind, pos, t) == [k |-> kind, s |-> pos, t |-> t]
MarkS == Act("S", 0, <<>>)
MarkE == Act("E", 0, <<>>)

\* effect of doing / undoing an action on a text
DoText(d, act) == CASE act.k = "I" -> InsertText(d, act.s, act.t)
                    [] act.k = "R" -> RemoveText(d, act.s, act.s + Len(act.t))
                    [] OTHER -> d
UndoText(d, act) == CASE act.k = "I" -> RemoveText(d, act.s, act.s + Len(act.t))
                      [] act.k = "R" -> InsertText(d, act.s, act.t)
                      [] OTHER -> d

\* A new edit is recorded and discards whatever could be redone.
Ins(b, p, t) == [d |-> InsertText(b.d, p, t), a |-> Append(b.a, Act("I", p, t)), u |-> <<>>]
Rem(b, x, y) == [d |-> RemoveText(b.d, x, y), a |-> Append(b.a, Act("R", x, Slice(b.d, x, y))), u |-> <<>>]
StartGroup(b) == [b EXCEPT !.a = Append(@, MarkS)]
EndGroup(b)   == [b EXCEPT !.a = Append(@, MarkE)]
ClearLog(b)   == [b EXCEPT !.a = <<>>, !.u = <<>>]

TruncateBuf(b, n) == Rem(b, n, Len(b.d))
CopyInto(b, t) == Ins(Rem(b, 0, Len(b.d)), 0, t)
AppendRest(b, t) == Ins(b, Len(b.d), Drop(t, Len(b.d)))

\* Taking back one unit: actions are taken back one by one until one has
\* been taken back outside of any group, skipping groups without actions.
RECURSIVE UndoFrom(_, _, _)
UndoFrom(b, nest, cnt) ==
    IF b.a = <<>> THEN b
    ELSE LET act == b.a[Len(b.a)]
             b1 == [d |-> UndoText(b.d, act), a |-> Front(b.a), u |-> Append(b.u, act)]
             n1 == CASE act.k = "E" -> nest + 1 [] act.k = "S" -> nest - 1 [] OTHER -> nest
             c1 == IF act.k \in {"E", "S"} THEN cnt ELSE cnt + 1
         IN  IF n1 = 0 /\ c1 > 0 THEN b1 ELSE UndoFrom(b1, n1, c1)
RECURSIVE RedoFrom(_, _, _)
RedoFrom(b, nest, cnt) ==
    IF b.u = <<>> THEN b
    ELSE LET act == b.u[Len(b.u)]
             b1 == [d |-> DoText(b.d, act), a |-> Append(b.a, act), u |-> Front(b.u)]
             n1 == CASE act.k = "S" -> nest + 1 [] act.k = "E" -> nest - 1 [] OTHER -> nest
             c1 == IF act.k \in {"E", "S"} THEN cnt ELSE cnt + 1
         IN  IF n1 = 0 /\ c1 > 0 THEN b1 ELSE RedoFrom(b1, n1, c1)

UndoBuf(b) == UndoFrom(b, 0, 0)
RedoBuf(b) == RedoFrom(b, 0, 0)
CanUndo(b) == b.a # <<>>
CanRedo(b) == b.u # <<>>
RECURSIVE RevertBuf(_)
RevertBuf(b) == IF CanUndo(b) THEN RevertBuf(UndoBuf(b)) ELSE b

----------------------------------------------------------------------------
(* Queries *)
Pieces(s, S) == SelectSeq(SplitOn(s, S), LAMBDA x : x # <<>>)
LastArg(s) == LET p == Pieces(s, {SPACE}) IN IF p = <<>> THEN <<>> ELSE <<p[Len(p)]>>
LineWidths(s) == LET ls == TextLines(s) IN [i \in DOMAIN ls |-> Width(ls[i])]

\* "s strictly extends t, and t is not empty": the autosuggestion test
Extends(s, t) == t # <<>> /\ Len(s) # Len(t) /\ StartsWithText(s, t)
\* "s contains t, and t is not empty": the search test
HasPart(s, t) == t # <<>> /\ ContainsText(s, t)
=============================================================================
