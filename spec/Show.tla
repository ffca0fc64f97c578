-------------------------------- MODULE Show --------------------------------
(***************************************************************************)
(* What is looked at when the code and the specification are compared.     *)
(***************************************************************************)
EXTENDS Session, Render

InitHist(cfg) ==
    LET h == [DefaultHist EXCEPT !.dup = cfg.dup, !.inc = cfg.inc, !.share = cfg.share,
                                 !.ldup = cfg.ldup, !.buf = cfg.hist,
                                 !.maxb = IF cfg.maxb > 0 THEN cfg.maxb ELSE @,
                                 !.maxf = IF cfg.maxf > 0 THEN cfg.maxf ELSE @]
    IN  IF cfg.fn THEN SetFile(h, cfg.f) ELSE Res(h, <<>>, TRUE, 0)

StartOf(cfg) == LET r == InitHist(cfg) IN SessionFor(cfg, r.h, r.f, cfg.init)

IsSuffixOf(s, t) == Len(s) <= Len(t) /\ Drop(t, Len(t) - Len(s)) = s

\* Whatever else happened, the cursor is on the line, in Vi's normal mode on
\* a character.  (Where the specification is known to be at the same text it
\* says what the mode is; the flag shown says it everywhere.)
Normal(cfg, T) == cfg.vi /\ TopMode(T.v).m = "N"
Unsafe(cfg, T, o) ==
    \/ o.c < 0 \/ o.c > Len(o.t)
    \/ /\ o.r = 0 /\ o.t # <<>> /\ o.c = Len(o.t)
       /\ o.n \/ (Normal(cfg, T) /\ o.t = CurText(T.e) /\ o.c # T.e.cur)

\* The cells of the mode indicator and the prompt after it (of the indicator alone while searching).
IndCells(cfg, b, d, g) ==
    LET k == Min2(cfg.w, Width(Indicator(cfg, d.pm)) + IF d.srch THEN 0 ELSE Width(d.pr))
    IN  IF d.cp # <<>> THEN <<>>
        ELSE Take(PadTo(IF Len(b.g) + 1 \in DOMAIN g THEN g[Len(b.g) + 1] ELSE <<>>, k), k)

\* The words of line t and the place of cursor c among them and at its end.
Place(wd, t, c, ne) ==
    LET w == WordsBy(wd, t)
    IN  [w |-> w, p |-> CursorPos(c, w), e |-> IF ne THEN c + 1 = Len(t) ELSE c = Len(t)]

\* A field in which the code and the specification differ.
Differs(cfg, T, b, o, f) ==
    CASE f = "r" -> o.r # T.r
      [] f = "t" -> o.t # CurText(T.e)
      [] f = "c" -> o.c # T.e.cur
      [] f = "h" -> o.h # T.e.loc
      [] f = "s" -> o.s # (T.e.sg # <<>>)
      [] f = "n" -> o.n # T.e.ne
      [] f = "ok" -> o.ok # T.ok
      [] f = "q" -> o.q # Place(T.e.wd, o.t, o.c, o.n)
      [] f = "lg" -> o.lg # T.lg
      [] f = "ar" -> o.ar # T.e.args
      [] f = "hs" -> o.hs # T.e.h.buf
      [] f = "fl" -> o.fl # T.e.f
      [] f = "scr" -> LET sc == Screen(cfg, b, T.e.dr)
                      IN  ~(o.scr.g = sc.g /\ o.scr.y = sc.y /\ o.scr.x = sc.x /\ o.scr.u = 0)
      [] f = "att" -> LET sc == Screen(cfg, b, T.e.dr)
                      IN  o.scr.g = sc.g /\ o.scr.a # sc.a
      [] f = "safe" -> Unsafe(cfg, T, o)
      [] f = "ind" -> IndCells(cfg, b, T.e.dr, o.scr.g)
                      # IndCells(cfg, b, T.e.dr, Screen(cfg, b, T.e.dr).g)
      [] f = "cl" -> o.cl # <<>> /\ ~IsSuffixOf(ColourArgs(TextLines(Body(T.e.dr)), Len(T.e.dr.t)), o.cl)
Differing(cfg, T, b, o) ==
    IF o.r \in {8, 9} THEN {"r"}
    ELSE {f \in ToSet(cfg.cmp) : Differs(cfg, T, b, o, f)}

Expected(cfg, T, b) ==
    [r |-> T.r, t |-> CurText(T.e), c |-> T.e.cur, h |-> T.e.loc, s |-> T.e.sg # <<>>,
     n |-> T.e.ne, ok |-> T.ok, q |-> Place(T.e.wd, CurText(T.e), T.e.cur, T.e.ne), lg |-> T.lg, ar |-> T.e.args, hs |-> T.e.h.buf, fl |-> T.e.f,
     scr |-> IF cfg.want.scr THEN Screen(cfg, b, T.e.dr) ELSE <<>>,
     cl |-> ColourArgs(TextLines(Body(T.e.dr)), Len(T.e.dr.t))]

\* The fields compared, for comparing them outside.
Shown(cfg, T, b) ==
    LET sc == IF cfg.want.scr THEN Screen(cfg, b, T.e.dr) ELSE <<>>
        F(f) == CASE f = "r" -> T.r
                  [] f = "t" -> CurText(T.e)
                  [] f = "c" -> T.e.cur
                  [] f = "h" -> T.e.loc
                  [] f = "s" -> (T.e.sg # <<>>)
                  [] f = "n" -> T.e.ne
                  [] f = "ok" -> T.ok
                  [] f = "q" -> Place(T.e.wd, CurText(T.e), T.e.cur, T.e.ne)
                  [] f = "lg" -> T.lg
                  [] f = "ar" -> T.e.args
                  [] f = "hs" -> T.e.h.buf
                  [] f = "fl" -> T.e.f
                  [] f = "scr" -> [g |-> sc.g, y |-> sc.y, x |-> sc.x]
                  [] f = "att" -> sc.a
                  [] f = "ind" -> [row |-> Len(b.g), cells |-> IndCells(cfg, b, T.e.dr, sc.g)]
                  [] f = "cl" -> ColourArgs(TextLines(Body(T.e.dr)), Len(T.e.dr.t))
                  [] OTHER -> 0
    IN  [f \in ToSet(cfg.cmp) |-> F(f)]
=============================================================================
