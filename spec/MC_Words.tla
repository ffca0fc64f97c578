------------------------------ MODULE MC_Words ------------------------------
(***************************************************************************)
(* Every line over a small alphabet and every ordered list of words, with  *)
(* every cursor position.                                                  *)
(***************************************************************************)
EXTENDS Words, Json, TLC, IOUtils

Model == JsonDeserialize(IOEnv.MODEL)

VARIABLES t, ws, c, ok
vars == <<t, ws, c, ok>>

Shown(x, w, p) == [w |-> Words(x), p |-> CursorPos(p, Words(x)), g |-> CursorPos(p, w)]

\* The classes, said of a position and words given: exactly one holds.
Is(p, w, k) ==
    LET n == Len(w) IN
    CASE k.k = "W" -> w[k.a + 1][1] < p /\ p < w[k.a + 1][2]
      [] k.k = "L" -> w[k.a + 1][1] = p
      [] k.k = "R" -> w[k.a + 1][2] = p
      [] k.k = "S" -> /\ \A i \in 1..n : p < w[i][1] \/ w[i][2] < p
                      /\ IF k.a = -1 THEN n = 0 \/ p < w[1][1] ELSE w[k.a + 1][2] < p
                      /\ IF k.b = -1 THEN n = 0 \/ w[n][2] < p ELSE p < w[k.b + 1][1]
                      /\ (k.a # -1 /\ k.b # -1) => k.b = k.a + 1
                      /\ (k.a = -1 /\ k.b # -1) => k.b = 0
                      /\ (k.b = -1 /\ k.a # -1) => k.a = n - 1

RECURSIVE ListsFrom(_, _)
ListsFrom(at, n) ==
    {<<>>} \cup (IF n = 0 THEN {}
                 ELSE UNION {{<<<<x, y>>>> \o r : r \in ListsFrom(y, n - 1)} :
                             <<x, y>> \in {<<x, y>> \in (at..Model.span) \X (at..Model.span) : x < y}})
Lists == IF t # <<>> THEN {<<>>} ELSE ListsFrom(0, Model.words)

Init == t = <<>> /\ ws = <<>> /\ c = -1 /\ ok = TRUE
Grow == /\ c = -1 /\ Len(t) < Model.longest
        /\ \E k \in ToSet(Model.alphabet) : t' = Append(t, k)
        /\ UNCHANGED <<ws, c, ok>>
Ask == /\ c = -1
       /\ \E w \in Lists : \E p \in 0..(IF w = <<>> THEN Len(t) ELSE Model.span + 1) :
            /\ c' = p /\ ws' = w
            /\ ok' = (WordsPartition(t) /\ Is(p, Words(t), CursorPos(p, Words(t))) /\ Is(p, w, CursorPos(p, w)))
            /\ PrintT("T " \o ToJson(<<1, <<t, p, w>>, Shown(t, w, p)>>))
       /\ UNCHANGED t
Next == Grow \/ Ask
Spec == Init /\ [][Next]_vars
View == vars
LawHolds == ok
=============================================================================
