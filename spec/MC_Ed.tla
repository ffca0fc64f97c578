-------------------------------- MODULE MC_Ed --------------------------------
(***************************************************************************)
(* Bounded models of sessions.  The file named by MODEL lists where to     *)
(* start (a configuration and events before the exploration) and what keys *)
(* may then be pressed, how deep; TLC explores all of it, checks the laws  *)
(* at every step, and prints every transition with what it shows, to be    *)
(* replayed in the code.                                                   *)
(*                                                                         *)
(* The path to a state is no part of it (View), nor is what only was shown *)
(* on the way; where no key undoes, the undo log is left out too.          *)
(***************************************************************************)
EXTENDS Laws, Json, TLC, IOUtils

Model == JsonDeserialize(IOEnv.MODEL)
Starts == Model.starts

VARIABLES si,     \* which start, 1-based
          S, base, gh,
          path,   \* indices of the keys pressed
          ok      \* the last step obeyed the law
vars == <<si, S, base, gh, path, ok>>

RECURSIVE Run(_, _, _, _)
\* [S, base, g] after events before the exploration
Run(cfg, x, evs, i) ==
    IF i > Len(evs) THEN x
    ELSE LET T == Event(cfg, x.S, evs[i])
         IN  Run(cfg, [S |-> T, base |-> IF T.e.cls > x.S.e.cls THEN [g |-> <<>>, a |-> <<>>] ELSE x.base,
                       g |-> Ghost(Model.law, cfg, x.S, evs[i], T, x.g)], evs, i + 1)

Keys(k) == Model.keys[Starts[k].alph]

Emit(p, cfg, T, b) == PrintT("T " \o ToJson(<<si, p, Shown(cfg, T, b)>>))

Init == /\ si \in 1..Len(Starts)
        /\ LET st == Starts[si]
               S0 == StartOf(st.cfg)
               x == Run(st.cfg, [S |-> S0, base |-> StartBase(st.cfg), g |-> GhostInit(Model.law, S0)], st.pre, 1)
           IN  S = x.S /\ base = x.base /\ gh = x.g
        /\ path = <<>> /\ ok = TRUE

Next == /\ Len(path) < Starts[si].depth
        /\ S.r = 0 \/ path = <<>>
        /\ \E k \in 1..Len(Keys(si)) :
             LET cfg == Starts[si].cfg
                 ev == Keys(si)[k]
                 T == Event(cfg, S, ev)
                 b == IF T.e.cls > S.e.cls THEN [g |-> <<>>, a |-> <<>>] ELSE base
             IN  /\ CurLen(T.e) <= Model.longest
                 /\ S' = T /\ base' = b
                 /\ gh' = Ghost(Model.law, cfg, S, ev, T, gh)
                 /\ ok' = Law(Model.law, cfg, b, S, ev, T, gh)
                 /\ path' = Append(path, k)
                 /\ Emit(Append(path, k), cfg, T, b)
        /\ UNCHANGED si

Spec == Init /\ [][Next]_vars

Bare(b) == [d |-> b.d, a |-> IF Model.log THEN b.a ELSE <<>>, u |-> IF Model.log THEN b.u ELSE <<>>]
View == <<si, gh, ok, base, IF Model.deep THEN Len(path) ELSE 0,
          [S EXCEPT !.lg = <<>>, !.e.args = <<>>, !.e.nb = Bare(@), !.e.hb = IF S.e.hv THEN Bare(@) ELSE NewBuf(<<>>),
                    !.e.dr = IF Model.drawn THEN @ ELSE NoSnap]>>

LawHolds == ok
=============================================================================
