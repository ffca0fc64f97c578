------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Characters are Unicode code points (naturals); a text is a sequence of  *)
(* them.  The tables below cover the alphabet the conformance drivers use  *)
(* (ASCII, letters of several scripts, combining marks, double-width and   *)
(* four-byte characters); see DESIGN.md, "Alphabet".                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

SPACE == 32
NL    == 10
BSL   == 92     \* backslash
HASH  == 35
TAB   == 9

IsDigit(c) == c \in 48..57
AsciiLower(c) == c \in 97..122
AsciiUpper(c) == c \in 65..90

(* Pairs of a lower and an upper case letter: e-acute, n-tilde, Cyrillic de,
   Greek sigma, double-width a, Deseret long i. *)
CasePairs == {<<233, 201>>, <<241, 209>>, <<1076, 1044>>, <<963, 931>>, <<65345, 65313>>, <<66600, 66560>>}
Lowers == {p[1] : p \in CasePairs}
Uppers == {p[2] : p \in CasePairs}
(* sharp s, final sigma, the ligature fi ; dotted capital I *)
IsLower(c) == AsciiLower(c) \/ (c > 127 /\ c \in Lowers \cup {223, 962, 64257})
IsUpper(c) == AsciiUpper(c) \/ (c > 127 /\ c \in Uppers \cup {304})

\* Full case mappings: one character may become two.
ToUpper(c) == IF AsciiLower(c) THEN <<c - 32>>
              ELSE IF c < 128 THEN <<c>>
              ELSE IF c \in Lowers THEN <<(CHOOSE p \in CasePairs : p[1] = c)[2]>>
              ELSE IF c = 962 THEN <<931>>
              ELSE IF c = 223 THEN <<83, 83>>
              ELSE IF c = 64257 THEN <<70, 73>>
              ELSE <<c>>
ToLower(c) == IF AsciiUpper(c) THEN <<c + 32>>
              ELSE IF c < 128 THEN <<c>>
              ELSE IF c \in Uppers THEN <<(CHOOSE p \in CasePairs : p[2] = c)[1]>>
              ELSE IF c = 304 THEN <<105, 775>>
              ELSE IF c = 453 THEN <<454>>
              ELSE <<c>>

\* white space: tab, newline, space, no-break, thin and ideographic space
IsWs(c) == c \in {9, 10, 32, 160, 8201, 12288}

\* letters and digits: the cased ones above, digits, superscript two, a letter
\* that is neither upper nor lower case (and its lower case), an Arabic digit, an
\* ideograph, a Hangul syllable
IsAlnum(c) == IsLower(c) \/ IsUpper(c) \/ IsDigit(c) \/ c \in {178, 453, 454, 1635, 19990, 54620}
IsKeyword(c) == c = 95 \/ IsAlnum(c)

Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

\* terminal cells taken by a printable character
CharWidth(c) == IF c < 128 THEN 1
                ELSE IF c \in {769, 775, 8203} THEN 0
                ELSE IF c \in {19990, 12288, 54620, 65313, 65345, 128512} THEN 2
                ELSE 1

Bytes(s) == FoldLeft(LAMBDA n, c : n + Utf8Len(c), 0, s)
Width(s) == FoldLeft(LAMBDA n, c : n + CharWidth(c), 0, s)

----------------------------------------------------------------------------
(* Sequence helpers.  Positions in the specification are 0-based insertion *)
(* points, as in the library's interface: position p lies after p chars.   *)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Slice(s, a, b) == SubSeq(s, a + 1, b)       \* characters between insertion points
InsertText(s, p, t) == Take(s, p) \o t \o Drop(s, p)
RemoveText(s, a, b) == Take(s, a) \o Drop(s, b)

StartsWithText(s, t) == Len(t) <= Len(s) /\ Take(s, Len(t)) = t
ContainsText(s, t) == \E i \in 0..(Len(s) - Len(t)) : Slice(s, i, i + Len(t)) = t

\* Split at every character in set S; always at least one piece.
SplitOn(s, S) ==
    LET at == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : s[i] \in S)
        n == Len(at)
    IN  IF n = 0 THEN <<s>>
        ELSE [k \in 1..(n + 1) |-> SubSeq(s, IF k = 1 THEN 1 ELSE at[k - 1] + 1,
                                          IF k = n + 1 THEN Len(s) ELSE at[k] - 1)]
TextLines(s) == SplitOn(s, {NL})

\* Lexicographic order of texts by code point.
RECURSIVE LexLess(_, _)
LexLess(s, t) ==
    IF t = <<>> THEN FALSE
    ELSE IF s = <<>> THEN TRUE
    ELSE IF s[1] # t[1] THEN s[1] < t[1]
    ELSE LexLess(Tail(s), Tail(t))

RECURSIVE JoinWith(_, _)
JoinWith(pieces, sep) ==
    IF Len(pieces) = 0 THEN <<>>
    ELSE IF Len(pieces) = 1 THEN pieces[1]
    ELSE pieces[1] \o sep \o JoinWith(Tail(pieces), sep)

Reverse2(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* decimal digits of a natural number
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
=============================================================================
