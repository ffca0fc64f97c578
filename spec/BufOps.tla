------------------------------- MODULE BufOps -------------------------------
(***************************************************************************)
(* Operations of a text buffer as events, and the answers to all queries.  *)
(***************************************************************************)
EXTENDS UndoBuffer

B2I(x) == IF x THEN 1 ELSE 0

\* An operation: [b, ret].
Op(x, ev) ==
    CASE ev.op = "ins"    -> [b |-> Ins(x, ev.n, ev.t), ret |-> 0]
      [] ev.op = "rem"    -> [b |-> Rem(x, ev.n, ev.m), ret |-> ev.m - ev.n]
      [] ev.op = "trunc"  -> [b |-> TruncateBuf(x, ev.n), ret |-> 0]
      [] ev.op = "copy"   -> [b |-> CopyInto(x, ev.t), ret |-> 0]
      [] ev.op = "app"    -> [b |-> AppendRest(x, ev.t), ret |-> 0]
      [] ev.op = "sg"     -> [b |-> StartGroup(x), ret |-> 0]
      [] ev.op = "eg"     -> [b |-> EndGroup(x), ret |-> 0]
      [] ev.op = "undo"   -> [b |-> UndoBuf(x), ret |-> B2I(CanUndo(x))]
      [] ev.op = "redo"   -> [b |-> RedoBuf(x), ret |-> B2I(CanRedo(x))]
      [] ev.op = "revert" -> [b |-> RevertBuf(x), ret |-> B2I(CanUndo(x))]
      [] ev.op = "clear"  -> [b |-> ClearLog(x), ret |-> 0]
      [] ev.op = "from"   -> [b |-> NewBuf(IF ev.n < 3 THEN ev.t ELSE <<>>), ret |-> 0]
      [] OTHER            -> [b |-> x, ret |-> 0]

At(d, k) == IF k \in 1..Len(d) THEN d[k] ELSE -1

\* Answers to the queries, with positions x <= y and another text u.
Answers(d, x, y, u) ==
    [len |-> Len(d), nb |-> Bytes(d), em |-> d = <<>>,
     cb |-> At(d, x), ca |-> At(d, x + 1),
     rg |-> Slice(d, x, y), rc |-> Slice(d, x, y), rw |-> LineWidths(Slice(d, x, y)),
     wd |-> LineWidths(d), ln |-> TextLines(d), ch |-> d, la |-> LastArg(d),
     pr |-> d, by |-> d, rs |-> Drop(d, x), rn |-> Bytes(Drop(d, x)),
     sw |-> Extends(d, u), ct |-> HasPart(d, u), eq |-> d = u, hq |-> d = u, st |-> d]
=============================================================================
