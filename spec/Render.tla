------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* What the terminal shows.  The screen is a sequence of rows of cells and *)
(* a cursor.  A cell is written as its character, a double-width character *)
(* as itself and 0, a combining character after its cell.  Attributes are  *)
(* kept alongside: colour (1 red, 2 green, 3 yellow, 8 black on white) and *)
(* 16 for text that went through the colouring function.                   *)
(*                                                                         *)
(* cfg: w width, pn and pi mode indicators, clo whether text is coloured,  *)
(* codes whether the prompt comes with colours of its own: a magenta       *)
(* indicator, the prompt green, its first character bold and red.          *)
(***************************************************************************)
EXTENDS Editor

Red == 1  Green == 2  Yellow == 3  Magenta == 5  Marked == 8  Coloured == 16

\* Pen: rows finished, the row being written with its attributes, its column.
Pen0 == [rows |-> <<>>, att |-> <<>>, row |-> <<>>, ra |-> <<>>, col |-> 0]
NextRow(p) == [rows |-> Append(p.rows, p.row), att |-> Append(p.att, p.ra),
               row |-> <<>>, ra |-> <<>>, col |-> 0]
Put(p, c, a, w) ==
    LET n == CharWidth(c)
        q == IF n > 0 /\ p.col + n > w THEN NextRow(p) ELSE p
    IN  IF n = 0 THEN (IF p.row = <<>> THEN p
                       ELSE [p EXCEPT !.row = Append(@, c), !.ra = Append(@, p.ra[Len(p.ra)])])
        ELSE IF n = 1 THEN [q EXCEPT !.row = Append(@, c), !.ra = Append(@, a), !.col = @ + 1]
        ELSE [q EXCEPT !.row = @ \o <<c, 0>>, !.ra = @ \o <<a, a>>, !.col = @ + 2]
RECURSIVE Write(_, _, _, _)
Write(p, t, a, w) == IF t = <<>> THEN p ELSE Write(Put(p, Head(t), a, w), Tail(t), a, w)
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN <<>> ELSE <<SPACE>> \o Spaces(n - 1)

----------------------------------------------------------------------------
(* Pieces *)
Indicator(cfg, pm) == IF pm = "I" THEN cfg.pi ELSE IF pm = "N" THEN cfg.pn ELSE <<>>
OneLine(t) == [i \in 1..Len(t) |-> IF t[i] = NL THEN SPACE ELSE t[i]]
SearchWord == <<40, 115, 101, 97, 114, 99, 104, 41, 39>>         \* (search)'

WritePrompt(p, cfg, d) ==
    LET p0 == Write(p, Indicator(cfg, d.pm), IF cfg.codes THEN Magenta ELSE 0, cfg.w) IN
    IF ~d.srch THEN LET p1 == Write(p0, Take(d.pr, Min2(1, Len(d.pr))), IF cfg.codes THEN Red + Coloured ELSE 0, cfg.w)
                    IN  Write(p1, Drop(d.pr, Min2(1, Len(d.pr))), IF cfg.codes THEN Green + Coloured ELSE 0, cfg.w)
    ELSE LET p1 == Write(p0, SearchWord, 0, cfg.w)
             p2 == Write(p1, OneLine(d.t), IF d.n = 0 THEN Red ELSE Green, cfg.w)
         IN  Write(p2, <<96, 32, 40>> \o Digits(d.place) \o <<47>> \o Digits(d.n)
                       \o <<41, 58, 32>>, 0, cfg.w)

\* Where text follows on the next line it starts in the column it started in
\* behind the prompt.
RECURSIVE WriteBody(_, _, _, _, _, _, _, _)
WriteBody(p, t, i, indent, w, known, a1, a2) ==
    IF i > Len(t) THEN p
    ELSE IF t[i] = NL
         THEN LET q == NextRow(p)
                  q1 == [q EXCEPT !.row = Spaces(indent), !.col = indent,
                                  !.ra = [k \in 1..indent |-> 0]]
              IN  WriteBody(q1, t, i + 1, indent, w, known, a1, a2)
    ELSE WriteBody(Put(p, t[i], IF i <= known THEN a1 ELSE a2, w), t, i + 1, indent, w, known, a1, a2)

Body(d) == IF d.sg # <<>> THEN d.sg[1] ELSE d.t

\* Candidates, in columns, above the prompt.
Chunk(l, k, n) == SubSeq(l, (k - 1) * n + 1, Min2(k * n, Len(l)))
RECURSIVE WriteItems(_, _, _, _, _, _, _, _)
WriteItems(p, l, i, at, cols, cw, w, hi) ==
    IF i > Len(l) THEN p
    ELSE LET p1 == IF at = cols THEN NextRow(p) ELSE p
             a == IF i - 1 = hi THEN Marked ELSE 0
             p2 == Write(p1, l[i] \o Spaces(cw - Width(l[i])), a, w)
         IN  WriteItems(p2, l, i + 1, IF at = cols THEN 1 ELSE at + 1, cols, cw, w, hi)
WriteList(p, cp, w) ==
    IF cp = <<>> THEN p
    ELSE LET l == cp[1]
             widest == MaxOf({1} \cup {Width(l[i]) : i \in DOMAIN l})
             cols0 == Max2(1, w \div widest)
             cw == Min2(2 + w \div cols0, w)
             cols == Max2(1, w \div cw)
         IN  NextRow(WriteItems(p, l, 1, 0, cols, cw, w, cp[2]))

----------------------------------------------------------------------------
(* The screen *)
\* the column the text starts in
Indent(p, w) == p.col % w

RECURSIVE TrimRow(_, _)
TrimRow(r, a) == IF r # <<>> /\ r[Len(r)] = SPACE /\ a[Len(a)] = 0
                 THEN TrimRow(Front(r), Front(a)) ELSE [r |-> r, a |-> a]
RECURSIVE TrimRows(_)
TrimRows(rows) == IF rows # <<>> /\ rows[Len(rows)].r = <<>> THEN TrimRows(Front(rows)) ELSE rows

\* Screen(cfg, base, d): base are the rows above, d what was drawn.
Screen(cfg, base, d) ==
    LET w == cfg.w
        p0 == WriteList([Pen0 EXCEPT !.rows = base.g, !.att = base.a], d.cp, w)
        p1 == WritePrompt(p0, cfg, d)
        ind == Indent(p1, w)
        body == Body(d)
        clo == IF cfg.clo THEN Coloured ELSE 0
        known == Len(d.t)
        p2 == WriteBody(p1, body, 1, ind, w, known,
                        (IF d.srch THEN Yellow ELSE 0) + clo, Yellow)
        last == NextRow(p2)
        rows == TrimRows([i \in 1..Len(last.rows) |-> TrimRow(last.rows[i], last.att[i])])
        pc == IF d.srch
              THEN WriteBody(Write(p0, Indicator(cfg, d.pm) \o SearchWord, 0, w),
                             OneLine(Take(d.t, d.c)), 1, 0, w, 0, 0, 0)
              ELSE WriteBody(p1, Take(d.t, d.c), 1, ind, w, 0, 0, 0)
        cr == IF pc.col >= w THEN Len(pc.rows) + 1 ELSE Len(pc.rows)
        cc == IF pc.col >= w THEN 0 ELSE pc.col
    IN  [g |-> [i \in 1..Len(rows) |-> rows[i].r], a |-> [i \in 1..Len(rows) |-> rows[i].a],
         y |-> IF d.nl THEN cr + 1 ELSE cr, x |-> IF d.nl THEN 0 ELSE cc]

\* Rows above the prompt when a session starts on a screen whose rows are g,
\* the cursor being in column x of the row after them (which holds junk).
RECURSIVE PadTo(_, _)
PadTo(t, n) == IF Len(t) >= n THEN t ELSE PadTo(Append(t, SPACE), n)
RetMark == 9166
StartBase(cfg) ==
    LET row0 == IF cfg.x0 = 0 THEN <<>>
                ELSE <<[k \in 1..(cfg.x0 + 1) |-> IF k = cfg.x0 + 1 THEN RetMark ELSE 35]>>
        g == cfg.rows \o row0 \o cfg.pre
    IN  [g |-> g, a |-> [i \in DOMAIN g |-> [k \in DOMAIN g[i] |-> 0]]]

\* What the colouring function is given when d is drawn.
RECURSIVE ColourArgs(_, _)
ColourArgs(lines, left) ==
    IF lines = <<>> \/ left <= 0 THEN <<>>
    ELSE <<Take(Head(lines), Min2(left, Len(Head(lines))))>>
         \o ColourArgs(Tail(lines), left - Len(Head(lines)) - 1)
=============================================================================
