------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* One session at the keyboard: an editor with its keymap, the keys common *)
(* to all keymaps, the callbacks, and reading whole lines.                 *)
(*                                                                         *)
(* A session S: e editor, v Vi state, m Emacs state, r how the last key    *)
(* ended, lg the callbacks it made.                                        *)
(*   r = 0 go on, 1 line finished, 2 interrupted, 3 end of file, 4 other   *)
(* cfg: vi, cand (candidates), call (all of them, or those that extend the *)
(* word), hook (a change the callback makes), see the drivers.             *)
(***************************************************************************)
EXTENDS Vi, Emacs

Cands(cfg, w) == IF cfg.call THEN cfg.cand
                 ELSE SelectSeq(cfg.cand, LAMBDA x : StartsWithText(x, w))

\* Operations of the editor's own interface.
ApiOp(e, op, n, t) ==
    CASE op = "ins" -> InsText(e, t)
      [] op = "left" -> MoveLeft(e, n)
      [] op = "right" -> MoveRight(e, n)
      [] op = "start" -> MoveStart(e)
      [] op = "end" -> MoveEnd(e)
      [] op = "to" -> MoveTo(e, n)
      [] op = "db" -> DeleteBefore(e)
      [] op = "da" -> DeleteAfter(e)
      [] op = "dab" -> DeleteAllBefore(e)
      [] op = "daa" -> DeleteAllAfter(e)
      [] op = "du" -> DeleteUntil(e, n)
      [] op = "dui" -> DeleteUntilIncl(e, n)
      [] op = "dw" -> DeleteWordBefore(e, n = 1)
      [] op = "undo" -> EdUndo(e)
      [] op = "redo" -> EdRedo(e)
      [] op = "revert" -> EdRevert(e)
      [] op = "up" -> MoveUp(e)
      [] op = "down" -> MoveDown(e)
      [] op = "oldest" -> MoveOldest(e)
      [] op = "newest" -> MoveNewest(e)
      [] op = "search" -> Search(e, n = 1)
      [] op = "clear" -> ClearScreen(e)
      [] op = "accept" -> Accept(e)
      [] op = "skip" -> [e EXCEPT !.cp = <<>>]
      [] op = "display" -> Display(e)
      \* the line changed directly; the drawing puts the cursor back on it
      [] op = "trunc" -> Display(Edit(e, LAMBDA b : TruncateBuf(b, Min2(n, Len(b.d)))))
      [] op = "bins" -> Display(Edit(e, LAMBDA b : Ins(b, 0, t)))
      \* an entry pushed while the line is edited
      [] op = "hpush" -> LET r == Push(e.h, e.f, t) IN [e EXCEPT !.h = r.h, !.f = r.f]
      \* entries have no edits of their own to take back
      [] op = "revall" -> e
      [] op = "vimode" -> Display([e EXCEPT !.pm = IF @ = "-" THEN "-" ELSE IF n = 0 THEN "N" ELSE "I"])
      [] op = "noeol" -> Display([e EXCEPT !.ne = n = 1])
      [] op = "prompt" -> [e EXCEPT !.pr = t]
      [] op = "peer" -> [e EXCEPT !.f = IF @ = <<>> THEN @ ELSE <<@[1] \o t \o <<NL>>>>]
      [] op = "peerw" -> [e EXCEPT !.f = <<t>>]
      [] op = "take" -> TakeLine(e)
      [] OTHER -> e

\* A callback is told the editor's state and may then change it.
NoKey == Key("-", 0)
Notify(cfg, S, x, key) ==
    LET e == S.e
        lg == Append(S.lg, [x |-> x, k |-> key, t |-> CurText(e), c |-> e.cur, h |-> e.loc])
        hit == cfg.hook.on = x /\ (x = "C" \/ cfg.hook.k = key)
    IN  [S EXCEPT !.lg = lg,
                  !.e = IF hit THEN ApiOp(e, cfg.hook.op, cfg.hook.n, cfg.hook.t) ELSE e]

Core(cfg, S, key) ==
    IF cfg.vi THEN LET s == VCore([e |-> S.e, v |-> S.v], key) IN [S EXCEPT !.e = s.e, !.v = s.v]
    ELSE LET s == EmacsKey([e |-> S.e, m |-> S.m], key) IN [S EXCEPT !.e = s.e, !.m = s.m]

CompleteStep(cfg, S) ==
    LET S1 == Notify(cfg, S, "C", NoKey)
        cand(w) == Cands(cfg, w)
    IN  [S1 EXCEPT !.e = Complete(@, cand)]

IsCtrl(key, c) == key.k = "Ctrl" /\ key.c = c

HandleKey(cfg, S, pressed) ==
    LET S0 == Notify(cfg, [S EXCEPT !.r = 0, !.lg = <<>>, !.e.args = <<>>], "B", pressed)
        key == IF IsCtrl(pressed, 104) THEN Key("Backspace", 0) ELSE pressed
        e == S0.e
        nl == Newline(e)
        after(S1) == Notify(cfg, S1, "A", key)
        sugg == e.sg # <<>>
    IN
    CASE IsCtrl(key, 99) -> [S0 EXCEPT !.e = nl.e, !.r = 2]
      [] IsCtrl(key, 100) /\ CurText(e) = <<>> -> [S0 EXCEPT !.e = nl.e, !.r = 3]
      [] IsCh(key, TAB) -> after(CompleteStep(cfg, S0))
      [] IsCh(key, NL) -> after([S0 EXCEPT !.e = nl.e, !.r = IF nl.done THEN 1 ELSE 0])
      [] (IsCtrl(key, 102) \/ (key.k = "Right" /\ AtEnd(e))) /\ sugg ->
            after([S0 EXCEPT !.e = Accept(e)])
      [] IsCtrl(key, 114) -> after([S0 EXCEPT !.e = Search(e, FALSE)])
      [] IsCtrl(key, 115) -> after([S0 EXCEPT !.e = Search(e, TRUE)])
      [] OTHER -> LET S1 == Core(cfg, S0, key) IN after([S1 EXCEPT !.e.cp = <<>>])

\* Any event of a session: a key, a key given to the keymap alone, or an
\* operation of the editor.
Event(cfg, Before, ev) ==
    LET S == [Before EXCEPT !.r = 0, !.lg = <<>>, !.ok = TRUE, !.e.args = <<>>] IN
    CASE ev.op = "key" -> HandleKey(cfg, S, ev.k)
      [] ev.op = "core" -> Core(cfg, S, ev.k)
      [] ev.op = "complete" -> CompleteStep(cfg, S)
      [] ev.op = "newline" -> LET nl == Newline(S.e) IN
            [S EXCEPT !.e = nl.e, !.r = IF nl.done THEN 1 ELSE 0]
      [] ev.op \in {"undo", "redo", "revert"} ->
            [S EXCEPT !.e = ApiOp(@, ev.op, ev.n, ev.t), !.ok = IF ev.op = "redo" THEN EdCanRedo(S.e) ELSE EdCanUndo(S.e)]
      [] OTHER -> [S EXCEPT !.e = ApiOp(@, ev.op, ev.n, ev.t)]

SessionFor(cfg, h, f, init) ==
    LET e0 == NewEditor(h, f, init, cfg.pm, cfg.pr, cfg.wd)
        s0 == ViStart(e0)
    IN  [e |-> IF cfg.vi THEN s0.e ELSE e0, v |-> IF cfg.vi THEN s0.v ELSE ViInit,
         m |-> EmacsInit, r |-> 0, lg |-> <<>>, ok |-> TRUE]

\* What a user can see of a session.
Obs(S) == [r |-> S.r, t |-> CurText(S.e), c |-> S.e.cur, h |-> S.e.loc,
           s |-> S.e.sg # <<>>, n |-> S.e.ne]

----------------------------------------------------------------------------
(* Reading a line: keys are handled until one ends the read or there are   *)
(* no more.                                                                *)
RECURSIVE ReadKeys(_, _, _, _, _)
ReadKeys(cfg, S, keys, i, lg) ==
    IF i > Len(keys) THEN [S |-> S, used |-> Len(keys), lg |-> lg]
    ELSE LET S1 == HandleKey(cfg, S, keys[i])
             lg1 == lg \o S1.lg
         IN  IF S1.r # 0 THEN [S |-> S1, used |-> i, lg |-> lg1]
             ELSE ReadKeys(cfg, S1, keys, i + 1, lg1)
ReadLine(cfg, h, f, init, keys) == ReadKeys(cfg, SessionFor(cfg, h, f, init), keys, 1, <<>>)
=============================================================================
