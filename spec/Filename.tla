------------------------------ MODULE Filename ------------------------------
(***************************************************************************)
(* File name completion over a tree of directories and files.              *)
(* A place in the tree is the sequence of names leading to it from the     *)
(* root, <<>> being the root.  tree: [dirs, files, links]: sets of places,  *)
(* and of pairs of a place and what a symbolic link there leads to.        *)
(***************************************************************************)
EXTENDS UndoBuffer

SLASH == 47  DOT == 46  QUOT == 34  APOS == 39  ROOT == 37

Comps(t) == Pieces(t, {SLASH})
PathsTo(p) == {SubSeq(p, 1, k) : k \in 0..Len(p)}

\* The tree made of paths; those of directories end in a slash.
TreeOf(paths, links) ==
    LET IsDir(t) == t[Len(t)] = SLASH
        ds == {Comps(paths[i]) : i \in {j \in DOMAIN paths : IsDir(paths[j])}}
        fs == {Comps(paths[i]) : i \in {j \in DOMAIN paths : ~IsDir(paths[j])}}
        ls == {<<Comps(links[i][1]), Comps(links[i][2])>> : i \in DOMAIN links}
    IN  [dirs |-> {<<>>} \cup UNION {PathsTo(p) : p \in ds} \cup UNION {PathsTo(Front(p)) : p \in fs}
                  \cup UNION {PathsTo(Front(l[1])) : l \in ls},
         files |-> fs, links |-> ls]

\* What a place is once links are followed (links lead to no other links).
LinkAt(tree, p) == {l \in tree.links : l[1] = p}
Resolve(tree, p) == IF LinkAt(tree, p) = {} THEN p ELSE (CHOOSE l \in LinkAt(tree, p) : TRUE)[2]

\* Following names from a directory: <<place>>, or <<>> if there is no such
\* directory.
RECURSIVE Walk(_, _, _)
Walk(tree, at, names) ==
    IF at \notin tree.dirs THEN <<>>
    ELSE IF names = <<>> THEN <<at>>
    ELSE IF Head(names) = <<DOT>> THEN Walk(tree, at, Tail(names))
    ELSE IF Head(names) = <<DOT, DOT>>
         THEN (IF at = <<>> THEN <<>> ELSE Walk(tree, Front(at), Tail(names)))
    ELSE Walk(tree, Resolve(tree, Append(at, Head(names))), Tail(names))

\* The name meant by what was typed: a quoted one as it is, in another one
\* a backslash takes the special meaning off a space.
RECURSIVE Unescape(_)
Unescape(t) == IF Len(t) < 2 THEN t
               ELSE IF t[1] = BSL /\ t[2] = SPACE THEN <<SPACE>> \o Unescape(Drop(t, 2))
               ELSE <<t[1]>> \o Unescape(Tail(t))
RECURSIVE Escape(_)
Escape(t) == IF t = <<>> THEN <<>>
             ELSE (IF Head(t) = SPACE THEN <<BSL, SPACE>> ELSE <<Head(t)>>) \o Escape(Tail(t))
Meant(t) ==
    IF t # <<>> /\ t[1] \in {QUOT, APOS}
    THEN LET r == Tail(t) IN IF r # <<>> /\ r[Len(r)] = t[1] THEN Front(r) ELSE r
    ELSE Unescape(t)

\* Everything up to the last slash, and the rest.
LastSlash(t) == LET S == {i \in DOMAIN t : t[i] = SLASH} IN IF S = {} THEN 0 ELSE MaxOf(S)
DirPart(m)  == IF Drop(m, LastSlash(m)) = <<DOT, DOT>> THEN Append(m, SLASH) ELSE Take(m, LastSlash(m))
NamePart(m) == IF Drop(m, LastSlash(m)) = <<DOT, DOT>> THEN <<>> ELSE Drop(m, LastSlash(m))

RECURSIVE LowerText(_)
LowerText(t) == IF t = <<>> THEN <<>> ELSE ToLower(Head(t)) \o LowerText(Tail(t))

\* What is listed for typed text t in directory wd of the tree.
FileCompletions(tree, wd, case, t) ==
    LET m == Meant(t)
        d == DirPart(m)
        name == IF case THEN NamePart(m) ELSE LowerText(NamePart(m))
        abs == d # <<>> /\ d[1] = ROOT
        place == Walk(tree, IF abs THEN <<>> ELSE wd, IF abs THEN Tail(Comps(d)) ELSE Comps(d))
        In(S) == {p \in S : p # <<>> /\ Front(p) = place[1]}
        Fits(n) == StartsWithText(IF case THEN n ELSE LowerText(n), name)
        N(p) == p[Len(p)]
        Links == {l[1] : l \in tree.links}
        ToDirs == {p \in Links : Resolve(tree, p) \in tree.dirs}
    IN  IF place = <<>> THEN {}
        ELSE {Escape(d \o N(p) \o <<SLASH>>) : p \in {q \in In(tree.dirs \cup ToDirs) : Fits(N(q))}}
             \cup {Escape(d \o N(p)) : p \in {q \in In(tree.files \cup (Links \ ToDirs)) : Fits(N(q))}}
=============================================================================
