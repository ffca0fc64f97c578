------------------------------- MODULE MC_Buf -------------------------------
(***************************************************************************)
(* Bounded models of a text buffer.  Beside the buffer runs an editor that *)
(* knows nothing of actions and logs: the text it would show, the texts    *)
(* before each unit that can be undone, and those that can be redone.      *)
(***************************************************************************)
EXTENDS BufOps, Json, TLC, IOUtils

Model == JsonDeserialize(IOEnv.MODEL)
Starts == Model.starts

VARIABLES si, b, path,
          g,    \* [past, future, nest, st, dirty]
          ok
vars == <<si, b, path, g, ok>>

Texts == Model.texts           \* what can be inserted
Ev(op, n, m, t) == [op |-> op, n |-> n, m |-> m, t |-> t, q |-> FALSE, x |-> 0, y |-> 0, u |-> <<>>]

Edits(n) ==
    LET P == IF Model.ends THEN {0, n} ELSE 0..n IN
    {Ev("ins", p, 0, t) : p \in P, t \in ToSet(Texts)}
    \cup {Ev("rem", x, y, <<>>) : x \in P, y \in 0..n}
    \cup (IF Model.all THEN {Ev("trunc", p, 0, <<>>) : p \in 0..n}
                            \cup {Ev("copy", 0, 0, t) : t \in ToSet(Texts)}
                            \cup {Ev("app", 0, 0, t) : t \in {b.d \o x : x \in ToSet(Texts)}}
          ELSE {})
Possible ==
    {e \in Edits(Len(b.d)) : e.op # "rem" \/ (e.n <= e.m /\ (Model.ends => e.m <= e.n + 1))}
    \cup (IF Model.undo THEN {Ev(op, 0, 0, <<>>) : op \in {"undo", "redo", "revert", "sg", "eg"}} ELSE {})
Allowed(e) ==
    /\ e.op = "sg" => g.nest < Model.nest
    /\ e.op = "eg" => g.nest > 0
    /\ e.op \in {"undo", "redo", "revert"} => (g.nest = 0 \/ Model.loose)
Queries == IF ~Model.ask THEN {}
           ELSE {[Ev("nop", 0, 0, <<>>) EXCEPT !.q = TRUE, !.x = x, !.y = y, !.u = u] :
                    x \in 0..Len(b.d), y \in 0..Len(b.d), u \in ToSet(Model.others)}

IsEdit(e) == e.op \in {"ins", "rem", "trunc", "copy", "app"}
Marks(l) == \A i \in DOMAIN l : l[i].k \in {"S", "E"}

\* The editor that knows only texts.
Ghost(e, T) ==
    CASE IsEdit(e) ->
            \* copying is a removal and an insertion
            LET past1 == IF e.op = "copy" THEN <<b.d, <<>>>> ELSE <<b.d>>
            IN  [g EXCEPT !.past = IF g.nest = 0 THEN @ \o past1 ELSE @, !.future = <<>>,
                          !.dirty = TRUE]
      [] e.op = "sg" -> [g EXCEPT !.nest = @ + 1, !.st = IF g.nest = 0 THEN b.d ELSE @,
                                  !.dirty = IF g.nest = 0 THEN FALSE ELSE @]
      [] e.op = "eg" -> [g EXCEPT !.nest = @ - 1, !.past = IF g.nest = 1 /\ g.dirty THEN Append(@, g.st) ELSE @]
      [] e.op = "undo" /\ g.past # <<>> ->
            [g EXCEPT !.past = Front(@), !.future = Append(@, b.d)]
      [] e.op = "redo" /\ g.future # <<>> ->
            [g EXCEPT !.future = Front(@), !.past = Append(@, b.d)]
      [] e.op = "revert" /\ g.past # <<>> ->
            [g EXCEPT !.past = <<>>, !.future = @ \o Reverse2(Tail(g.past) \o <<b.d>>)]
      [] OTHER -> g
Law(e, T) ==
    IF Model.loose THEN TRUE ELSE
    CASE e.op = "undo" -> /\ T.b.d = IF g.past = <<>> THEN b.d ELSE g.past[Len(g.past)]
                          /\ T.ret = B2I(b.a # <<>>) /\ (T.ret = 0 => g.past = <<>>)
                          /\ g.past = <<>> => Marks(b.a)
      [] e.op = "redo" -> /\ T.b.d = IF g.future = <<>> THEN b.d ELSE g.future[Len(g.future)]
                          /\ T.ret = B2I(b.u # <<>>) /\ (T.ret = 0 => g.future = <<>>)
                          /\ g.future = <<>> => Marks(b.u)
      [] e.op = "revert" -> T.b.d = (IF g.past = <<>> THEN b.d ELSE g.past[1]) /\ T.b.a = <<>>
      [] e.op = "rem" -> T.ret = Len(b.d) - Len(T.b.d) /\ T.b.d = Take(b.d, e.n) \o Drop(b.d, e.m)
      [] e.op \in {"sg", "eg", "nop"} -> T.b.d = b.d
      [] e.op = "copy" -> T.b.d = e.t
      [] e.op = "app" -> T.b.d = e.t
      [] e.op = "trunc" -> T.b.d = Take(b.d, e.n)
      [] e.op = "ins" -> Len(T.b.d) = Len(b.d) + Len(e.t) /\ Slice(T.b.d, e.n, e.n + Len(e.t)) = e.t
      [] OTHER -> TRUE

Shown(T, e) == [t |-> T.b.d, ret |-> T.ret,
                q |-> IF e.q THEN <<Answers(T.b.d, e.x, e.y, e.u)>> ELSE <<>>]

Init == /\ si \in 1..Len(Starts)
        /\ b = NewBuf(Starts[si].cfg.init) /\ path = <<>> /\ ok = TRUE
        /\ g = [past |-> <<>>, future |-> <<>>, nest |-> 0, st |-> <<>>, dirty |-> FALSE]
Next == /\ Len(path) < Starts[si].depth
        /\ path # <<>> => ~path[Len(path)].q
        /\ \E e \in {x \in Possible : Allowed(x)} \cup {x \in Queries : x.x <= x.y} :
             LET T == Op(b, e) IN
             /\ Len(T.b.d) <= Model.longest
             /\ b' = T.b
             /\ g' = IF Model.loose THEN [g EXCEPT !.nest = IF e.op = "sg" THEN @ + 1 ELSE IF e.op = "eg" THEN @ - 1 ELSE @]
                     ELSE Ghost(e, T)
             /\ ok' = Law(e, T)
             /\ path' = Append(path, e)
             /\ PrintT("T " \o ToJson(<<si, path', Shown(T, e)>>))
        /\ UNCHANGED si
Spec == Init /\ [][Next]_vars
View == <<si, IF Model.undo THEN b ELSE NewBuf(b.d), IF Model.undo THEN g ELSE 0, ok,
          path # <<>> /\ path[Len(path)].q>>
LawHolds == ok
=============================================================================
