-------------------------------- MODULE MC_Fn --------------------------------
(***************************************************************************)
(* File name completion of every text over a small alphabet, on trees.     *)
(***************************************************************************)
EXTENDS Filename, Json, TLC, IOUtils

Model == JsonDeserialize(IOEnv.MODEL)
Starts == Model.starts

VARIABLES si, t, ok
vars == <<si, t, ok>>

Tree(cfg) == TreeOf(cfg.tree, cfg.links)
Found(cfg, x) == FileCompletions(Tree(cfg), Comps(cfg.cwd), cfg.plain \/ cfg.case, x)

\* Typing what was completed means what was meant: completing a candidate
\* gives that candidate (a directory's: what is in it).
Again(cfg, x) ==
    \A y \in Found(cfg, x) :
        IF y[Len(y)] = SLASH THEN Found(cfg, Front(y)) # {} \/ x = <<>> \/ x[1] \in {QUOT, APOS}
        ELSE \/ y \in Found(cfg, y)
             \/ (x # <<>> /\ x[1] \in {QUOT, APOS})
             \/ y[1] \in {QUOT, APOS}
             \/ BSL \in ToSet(Meant(y))

\* What is found, in the tree's own terms: names of things there (a slash
\* behind a directory's) that begin with what is meant, written so that they
\* are one word of a line; all of them, where the way there is a plain one.
NoSlash(n) == IF n # <<>> /\ n[Len(n)] = SLASH THEN Front(n) ELSE n
Begins(cfg, n, p) == IF cfg.plain \/ cfg.case THEN StartsWithText(n, p) ELSE StartsWithText(LowerText(n), LowerText(p))
Things(cfg) == LET tr == Tree(cfg) IN tr.dirs \cup tr.files \cup {l[1] : l \in tr.links}
Honest(cfg, x) ==
    LET m == Meant(x)  d == DirPart(m)  nm == NamePart(m)
        way == Comps(d)
        at == IF way # <<>> /\ way[1] = <<ROOT>> THEN Tail(way) ELSE Comps(cfg.cwd) \o way
        plain == /\ <<DOT>> \notin ToSet(way) /\ <<DOT, DOT>> \notin ToSet(way)
                 /\ \A k \in 0..Len(at) : LinkAt(Tree(cfg), Take(at, k)) = {}
        got == {Drop(Unescape(y), Len(d)) : y \in Found(cfg, x)}
    IN  /\ \A y \in Found(cfg, x) :
             /\ \A i \in DOMAIN y : y[i] = SPACE => i > 1 /\ y[i - 1] = BSL
             /\ Take(Unescape(y), Len(d)) = d
        /\ \A n \in got : NoSlash(n) # <<>> /\ SLASH \notin ToSet(NoSlash(n)) /\ Begins(cfg, NoSlash(n), nm)
        /\ plain => got = {IF p \in Tree(cfg).dirs \/ (p \notin Tree(cfg).files /\ Resolve(Tree(cfg), p) \in Tree(cfg).dirs)
                            THEN Append(p[Len(p)], SLASH) ELSE p[Len(p)] :
                            p \in {q \in Things(cfg) : q # <<>> /\ Front(q) = at /\ Begins(cfg, q[Len(q)], nm)}}

\* Text is not followed out of the tree.
RECURSIVE Depth(_, _)
Depth(names, d) == IF names = <<>> THEN d
                   ELSE IF Head(names) = <<DOT, DOT>> THEN (IF d = 0 THEN -1 ELSE Depth(Tail(names), d - 1))
                   ELSE IF Head(names) = <<DOT>> THEN Depth(Tail(names), d)
                   ELSE Depth(Tail(names), d + 1)
RECURSIVE Climbs(_, _, _)
Climbs(names, d, k) == k <= Len(names) /\ (Depth(SubSeq(names, 1, k), d) = -1 \/ Climbs(names, d, k + 1))
Unquoted(x) == SelectSeq(x, LAMBDA c : c \notin {QUOT, APOS})
Inside(cfg, x) ==
    LET m == Unquoted(x)
        abs == m # <<>> /\ m[1] = ROOT
    IN  /\ ~Climbs(IF abs THEN Tail(Comps(m)) ELSE Comps(m), IF abs THEN 0 ELSE Len(Comps(cfg.cwd)), 1)
        /\ m # <<>> => m[1] # SLASH
        /\ abs => Len(m) > 1 /\ m[2] = SLASH

Emit(k, x) == PrintT("T " \o ToJson(<<k, x, [l |-> SetToSeq(Found(Starts[k].cfg, x))]>>))
Init == si \in 1..Len(Starts) /\ t = Starts[si].init /\ ok = TRUE
Next == /\ Len(t) < Len(Starts[si].init) + Starts[si].depth
        /\ \E c \in ToSet(Model.keys[Starts[si].alph]) :
             /\ t' = Append(t, c)
             /\ Inside(Starts[si].cfg, t')
             /\ ok' = (Again(Starts[si].cfg, t') /\ Honest(Starts[si].cfg, t'))
             /\ Emit(si, t')
        /\ UNCHANGED si
Spec == Init /\ [][Next]_vars
View == vars
LawHolds == ok
=============================================================================
