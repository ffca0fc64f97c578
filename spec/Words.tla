------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* The default word division and the place of the cursor among words.      *)
(* A word is <<start, end>> (0-based insertion points).                    *)
(***************************************************************************)
EXTENDS Chars

\* A space separates words unless the character directly before it is a
\* backslash.
IsSeparator(s, i) == s[i] = SPACE /\ ~(i > 1 /\ s[i - 1] = BSL)

\* What a divider makes of a character: 0 for nothing of a word, else its
\* class.  Divider 0 is the default one; an application may have its own, as
\* 1 (fields between commas) and 2 (tokens, which may touch).
AlNum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
WordClass(k, s, i) ==
    CASE k = 0 -> IF IsSeparator(s, i) THEN 0 ELSE 1
      [] k = 1 -> IF s[i] = 44 THEN 0 ELSE 1
      [] OTHER -> IF s[i] = SPACE THEN 0 ELSE IF AlNum(s[i]) THEN 1 ELSE 2

\* Words are the maximal runs of characters of a class.
WordsBy(k, s) ==
    LET n == Len(s)
        cl == [i \in 1..n |-> WordClass(k, s, i)]
        starts == SelectSeq([i \in 1..n |-> i], LAMBDA i : cl[i] # 0 /\ (i = 1 \/ cl[i - 1] # cl[i]))
        EndOf(i) == LET after == {j \in i..n : cl[j] # cl[i]}
                    IN  IF after = {} THEN n ELSE MinOf(after) - 1
    IN  [j \in 1..Len(starts) |-> <<starts[j] - 1, EndOf(starts[j])>>]
Words(s) == WordsBy(0, s)

\* The words of a line divide it: ordered, not empty, apart, and between
\* them there are only spaces.
WordsPartition(s) ==
    LET w == Words(s) IN
    /\ \A k \in DOMAIN w : 0 <= w[k][1] /\ w[k][1] < w[k][2] /\ w[k][2] <= Len(s)
    /\ \A k \in 1..(Len(w) - 1) : w[k][2] < w[k + 1][1]
    /\ \A i \in 1..Len(s) :
          (\A k \in DOMAIN w : ~(w[k][1] < i /\ i <= w[k][2])) => s[i] = SPACE
    /\ \A k \in DOMAIN w : \A i \in (w[k][1] + 1)..w[k][2] :
          s[i] = SPACE => i > 1 /\ s[i - 1] = BSL

\* Kinds of position.  Word numbers are 0-based; -1 means "none".
OnLeft(k)     == [k |-> "L", a |-> k, b |-> -1]
OnRight(k)    == [k |-> "R", a |-> k, b |-> -1]
InWord(k)     == [k |-> "W", a |-> k, b |-> -1]
InSpace(l, r) == [k |-> "S", a |-> l, b |-> r]

\* The one position of cursor c among the ordered words w.  Where two words
\* touch, the right edge of the earlier one is reported.
CursorPos(c, w) ==
    LET n == Len(w)
        touching == {k \in 1..n : w[k][1] <= c /\ c <= w[k][2]}
        left == Cardinality({k \in 1..n : w[k][2] < c})
    IN  IF touching # {} THEN
            LET k == MinOf(touching) IN
            IF w[k][1] = c THEN OnLeft(k - 1)
            ELSE IF w[k][2] = c THEN OnRight(k - 1)
            ELSE InWord(k - 1)
        ELSE InSpace(left - 1, IF left = n THEN -1 ELSE left)
=============================================================================
