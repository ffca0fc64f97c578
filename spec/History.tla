------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* The history list of one session and the history file on disk.           *)
(*                                                                         *)
(* A history h:                                                            *)
(*   buf   entries, oldest first           maxb  limit of the list         *)
(*   fn    has a file name                 maxf  limit of the file         *)
(*   dup   append an entry equal to the newest one                         *)
(*   inc   append each pushed entry to the file                            *)
(*   ldup  keep duplicates when loading    share reload before browsing    *)
(*   fsize size of the file as last seen   cw    pushes since compaction   *)
(* The file f is <<>> (absent) or <<content>>, the content being a text in *)
(* which BAD is a byte that is no part of any character.                   *)
(***************************************************************************)
EXTENDS UndoBuffer

DefaultHist == [buf |-> <<>>, fn |-> FALSE, maxb |-> 1000, maxf |-> 1000,
                dup |-> FALSE, inc |-> FALSE, share |-> FALSE, ldup |-> TRUE,
                fsize |-> 0, cw |-> 0]

CompactEvery == 30

KeepLast(s, n) == IF Len(s) > n THEN Drop(s, Len(s) - n) ELSE s

\* Only the last copy of each entry is kept.
KeepLastCopies(s) ==
    LET idx == SelectSeq([i \in 1..Len(s) |-> i],
                         LAMBDA i : \A j \in (i + 1)..Len(s) : s[j] # s[i])
    IN  [k \in 1..Len(idx) |-> s[idx[k]]]

\* Lines of a file: the part after the last newline counts only if it is
\* not empty.
FileLines(c) == LET p == TextLines(c) IN IF p[Len(p)] = <<>> THEN Front(p) ELSE p
IsComment(l) == l # <<>> /\ l[1] = HASH
\* Lines that are no text (a write cut off, another encoding) are no entries.
BAD == -1
IsBroken(l) == \E i \in DOMAIN l : l[i] = BAD
Entries(c) == SelectSeq(FileLines(c), LAMBDA l : ~IsComment(l) /\ ~IsBroken(l))
ContentOf(es) == FlattenSeq([i \in 1..Len(es) |-> Append(es[i], NL)])

\* Copies are compared by their text with line breaks left out on the side
\* of the older one.
DropCopiesLoaded(s) ==
    LET flat(t) == SelectSeq(t, LAMBDA c : c # NL)
        idx == SelectSeq([i \in 1..Len(s) |-> i],
                         LAMBDA i : \A j \in (i + 1)..Len(s) : flat(s[i]) # s[j])
    IN  [k \in 1..Len(idx) |-> s[idx[k]]]

\* What a list becomes when content c is loaded into it.
Loaded(h, c, append) ==
    LET all == KeepLast((IF append THEN h.buf ELSE <<>>) \o Entries(c), h.maxf)
    IN  IF h.ldup THEN all ELSE DropCopiesLoaded(all)

\* Load the file c, believed to have had size `seen'.
LoadTest(h, c, seen, append) ==
    LET n == Bytes(c) IN
    IF n # seen THEN [h EXCEPT !.buf = Loaded(h, c, append)]
    ELSE IF n = 0 /\ ~append THEN [h EXCEPT !.buf = <<>>]
    ELSE h

\* Operations return [h, f, ok, n]: new history, new file, success, number.
Res(h, f, ok, n) == [h |-> h, f |-> f, ok |-> ok, n |-> n]

LoadHistory(h, f, append) ==
    IF ~h.fn \/ f = <<>> THEN Res(h, f, FALSE, 0)
    ELSE Res([LoadTest(h, f[1], h.fsize, append) EXCEPT !.fsize = Bytes(f[1])], f, TRUE, Bytes(f[1]))

LoadHistoryFile(h, f, append) ==
    IF f = <<>> THEN Res(h, f, FALSE, 0)
    ELSE Res(LoadTest(h, f[1], 0, append), f, TRUE, Bytes(f[1]))

SetFile(h, f) ==
    IF f = <<>> THEN Res([h EXCEPT !.fn = TRUE, !.fsize = 0], <<<<>>>>, TRUE, 0)
    ELSE Res([LoadTest([h EXCEPT !.fn = TRUE], f[1], 0, FALSE) EXCEPT !.fsize = Bytes(f[1])],
             f, TRUE, Bytes(f[1]))

Overwrite(h, f) ==
    LET h1 == [h EXCEPT !.buf = KeepLast(@, h.maxf)]
    IN  Res(h1, <<ContentOf(h1.buf)>>, TRUE, 0)

CommitPath(h, f) == IF h.inc THEN Res(h, f, TRUE, 0) ELSE Overwrite(h, f)
CommitFile(h, f) == IF h.fn /\ ~h.inc THEN Overwrite(h, f) ELSE Res(h, f, TRUE, 0)

\* Compaction of the file of a session that does not share its history:
\* the newest maxf entries, the last copy of each; rewritten only if that
\* drops an entry.
Dedup(h, f) ==
    LET es == Entries(f[1])
        kept == KeepLastCopies(KeepLast(es, h.maxf))
    IN  IF Len(kept) # Len(es) THEN <<ContentOf(kept)>> ELSE f

Push(h, f, item) ==
    IF ~h.dup /\ h.buf # <<>> /\ h.buf[Len(h.buf)] = item THEN Res(h, f, TRUE, 0)
    ELSE
    LET h1 == [h EXCEPT !.buf = KeepLast(Append(@, item), h.maxb)] IN
    IF ~(h.inc /\ h.fn) THEN Res(h1, f, TRUE, 0)
    ELSE
    LET f2 == IF f = <<>> THEN f ELSE <<f[1] \o item \o <<NL>>>>
        h2 == IF f = <<>> THEN h1 ELSE [h1 EXCEPT !.fsize = @ + Bytes(item) + 1]
        c  == IF h.ldup THEN 1 ELSE h.cw + 1
        h3 == [h2 EXCEPT !.cw = IF c >= CompactEvery THEN 0 ELSE c]
    IN  IF c < CompactEvery THEN Res(h3, f2, TRUE, 0)
        ELSE IF h.share THEN
             LET h4 == IF f2 = <<>> THEN h3 ELSE LoadTest(h3, f2[1], 0, FALSE)
             IN  Overwrite(h4, f2)
        ELSE IF f2 = <<>> THEN Res(h3, f2, TRUE, 0)
        ELSE Res(h3, Dedup(h3, f2), TRUE, 0)

SetMaxB(h, n) == [h EXCEPT !.maxb = n]
SetMaxF(h, n) == [h EXCEPT !.maxf = n]
RemoveDuplicates(h, t) ==
    [h EXCEPT !.buf = SelectSeq(@, LAMBDA e : SelectSeq(e, LAMBDA c : c # NL) # t)]

----------------------------------------------------------------------------
(* Queries.  Indices are 0-based, -1 for none. *)
NewestMatch(buf, upto, t) ==
    LET m == {i \in 1..Min2(upto, Len(buf)) : Extends(buf[i], t)}
    IN  IF m = {} THEN -1 ELSE MaxOf(m) - 1

IdxWhere(buf, P(_)) == LET ix == SelectSeq([i \in 1..Len(buf) |-> i], LAMBDA i : P(buf[i]))
                       IN  [k \in 1..Len(ix) |-> ix[k] - 1]

\* entries containing t, in order
SearchIndex(buf, t) == IdxWhere(buf, LAMBDA e : HasPart(e, t))
\* entries to browse for t: those with t inside, then those extending t
Subset(buf, t) ==
    IdxWhere(buf, LAMBDA e : HasPart(e, t) /\ ~Extends(e, t) /\ e # t)
    \o IdxWhere(buf, LAMBDA e : Extends(e, t))
=============================================================================
