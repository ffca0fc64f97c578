#!/usr/bin/env python3
"""selftest.py [PROPERTY ...]

Are the laws of the models more than what the specification computes anyway?
Each entry below is a wrong version of the specification; the law of its
property has to fail in the property's models.  Says which ones are noticed.
Not one of the checks: run after the specification or the laws change."""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
import models

WRONG = [
    # property, module, text, wrong text
    ("P01", "Editor", "c1 == Min2(e.cur, len)", "c1 == e.cur"),
    ("P01", "Editor", "c2 == IF e.ne /\\ c1 # 0 /\\ c1 = len THEN c1 - 1 ELSE c1", "c2 == c1"),
    ("P01", "Editor", "IF e.loc >= Len(h1.buf)", "IF FALSE"),
    ("P02", "BufOps", '[] ev.op = "copy"   -> [b |-> CopyInto(x, ev.t)', '[] ev.op = "copy"   -> [b |-> Ins(x, 0, ev.t)'),
    ("P02", "UndoBuffer", "AppendRest(b, t) == Ins(b, Len(b.d), Drop(t, Len(b.d)))", "AppendRest(b, t) == Ins(b, Len(b.d), t)"),
    ("P03", "UndoBuffer", "IN  IF n1 = 0 /\\ c1 > 0 THEN b1 ELSE UndoFrom(b1, n1, c1)", "IN  IF c1 > 0 THEN b1 ELSE UndoFrom(b1, n1, c1)"),
    ("P03", "UndoBuffer", "IN  IF n1 = 0 /\\ c1 > 0 THEN b1 ELSE RedoFrom(b1, n1, c1)", "IN  IF n1 = 0 THEN b1 ELSE RedoFrom(b1, n1, c1)"),
    ("P03", "UndoBuffer", "a |-> Append(b.a, Act(\"I\", p, t)), u |-> <<>>]", "a |-> Append(b.a, Act(\"I\", p, t)), u |-> b.u]"),
    ("P04", "Vi", "IN  ShowMode([e |-> [EndGroups(s.e, open) EXCEPT", "IN  ShowMode([e |-> [s.e EXCEPT"),
    ("P04", "Vi", 'IN  IF mode.m \\in {"I", "T"} THEN [s1 EXCEPT !.e = EdStartGroup(@)] ELSE s1', "IN  s1"),
    ("P04", "UndoBuffer", "RevertBuf(b) == IF CanUndo(b) THEN RevertBuf(UndoBuf(b)) ELSE b", "RevertBuf(b) == UndoBuf(b)"),
    ("P05", "Editor", "DeleteAllBefore(e) == Display([Edit(e, LAMBDA b : Rem(b, 0, e.cur)) EXCEPT !.cur = 0])", "DeleteAllBefore(e) == Display([Edit(e, LAMBDA b : Rem(b, 0, Len(b.d))) EXCEPT !.cur = 0])"),
    ("P05", "Words", "s[i] = SPACE /\\ ~(i > 1 /\\ s[i - 1] = BSL)", "s[i] = SPACE"),
    ("P05", "Emacs", "S == {w \\in ToSet(l) : w[2] > c}", "S == {w \\in ToSet(l) : w[2] > c + 1}"),
    ("P05", "Editor", "DeleteAllAfter(e)  == Display(Edit(e, LAMBDA b : TruncateBuf(b, e.cur)))", "DeleteAllAfter(e)  == Display([Edit(e, LAMBDA b : TruncateBuf(b, e.cur)) EXCEPT !.cur = 0])"),
    ("P06", "Vi", "IN  IF Len(ix) < n THEN <<>> ELSE <<ix[n]>>", "IN  IF ix = <<>> THEN <<>> ELSE <<ix[1]>>"),
    ("P06", "Vi", 'place == CASE kind = "t" -> hit[1] - 1', 'place == CASE kind = "t" -> hit[1]'),
    ("P06", "Vi", "PrevStart(t, big, c) == Greatest({j \\in 0..(c - 1)", "PrevStart(t, big, c) == Greatest({j \\in 0..(c - 2)"),
    ("P06", "Vi", "NextEnd(t, big, c)   == Least({j \\in (c + 1)..", "NextEnd(t, big, c)   == Least({j \\in (c + 2).."),
    ("P06", "Vi", "IF big \\/ IsKeyword(c) THEN 1 ELSE 2", "IF IsKeyword(c) THEN 1 ELSE 2"),
    ("P07", "Vi", "[] ch = 68  -> [e |-> DeleteAllAfter(e), v |-> [Simple(v, key, 0) EXCEPT !.n = 0]]", "[] ch = 68  -> [e |-> DeleteAllAfter(e), v |-> Simple(v, key, 0)]"),
    ("P07", "Vi", "v |-> [Remember(s1.v, s1.v.n) EXCEPT !.n = 0, !.n2 = 0]]", "v |-> [Remember(s1.v, s1.v.n) EXCEPT !.n2 = 0]]"),
    ("P07", "Vi", "[] ch = 120 \\/ key.k = \"Delete\" ->                                   \\* x\n           [e |-> DeleteUntil(e, e.cur + CountRight(s))", "[] ch = 120 \\/ key.k = \"Delete\" ->                                   \\* x\n           [e |-> DeleteUntil(e, e.cur + 1)"),
    ("P08", "Vi", "[] ch = 67  -> LET s1 == EnterMode([s EXCEPT !.v = [Simple(v, key, 0) EXCEPT !.n = 0]], ModeI)", "[] ch = 67  -> LET s1 == EnterMode([s EXCEPT !.v.n = 0], ModeI)"),
    ("P08", "Vi", "s2 == IF TopMode(s1.v).m = \"I\" THEN VCore(s1, Esc) ELSE s1", "s2 == s1"),
    ("P08", "Vi", "!.lc = <<Ch(114), key>>, !.ln = s.v.n]]", "!.lc = <<Ch(114), key>>, !.ln = 0]]"),
    ("P09", "Editor", "IF e2.sl + 1 < Len(e2.sub) THEN GoSubset(e2, e2.sl + 1) ELSE BackToNew(e2)", "IF e2.sl + 1 < Len(e2.sub) THEN GoSubset(e2, e2.sl + 1) ELSE e2"),
    ("P09", "Editor", "ELSE IF e1.loc = -1 THEN [e1 EXCEPT !.loc = Len(e1.h.buf) - 1]", "ELSE IF e1.loc = -1 THEN [e1 EXCEPT !.loc = Min2(0, Len(e1.h.buf) - 1)]"),
    ("P09", "History", "\\o IdxWhere(buf, LAMBDA e : Extends(e, t))", "\\o Reverse2(IdxWhere(buf, LAMBDA e : Extends(e, t)))"),
    ("P10", "Editor", "ELSE IF old = -1 \\/ notBefore = {} THEN dflt", "ELSE IF TRUE THEN dflt"),
    ("P10", "Editor", "[e EXCEPT !.sl = IF fwd THEN (@ + 1) % n ELSE (@ + n - 1) % n])", "[e EXCEPT !.sl = IF fwd THEN Min2(@ + 1, n - 1) ELSE Max2(0, @ - 1)])"),
    ("P11", "History", "IN  IF m = {} THEN -1 ELSE MaxOf(m) - 1", "IN  IF m = {} THEN -1 ELSE MinOf(m) - 1"),
    ("P11", "Editor", "ELSE AppendRest(b, e.sg[1]))", "ELSE Ins(b, Len(b.d), e.sg[1]))"),
    ("P11", "Editor", "    IF e.hv THEN <<>>\n    ELSE IF Searching(e) THEN", "    IF Searching(e) THEN"),
    ("P12", "Editor", "word == IF w = <<>> THEN <<>> ELSE Slice(CurText(e), w[1][1], e.cur)", "word == IF w = <<>> THEN <<>> ELSE Slice(CurText(e), w[1][1], w[1][2])"),
    ("P12", "Editor", "(e.cp[2] + 1) % Len(list)", "Min2(e.cp[2] + 1, Len(list) - 1)"),
    ("P12", "Editor", "k == MaxOf({k \\in 0..n : \\A i \\in DOMAIN l : Take(l[i], k) = Take(l[1], k)})", "k == n"),
    ("P13", "Render", "cc == IF pc.col >= w THEN 0 ELSE pc.col", "cc == pc.col"),
    ("P13", "Render", "q == IF n > 0 /\\ p.col + n > w THEN NextRow(p) ELSE p", "q == p"),
    ("P13", "Render", "q1 == [q EXCEPT !.row = Spaces(indent), !.col = indent,", "q1 == [q EXCEPT !.row = Spaces(indent), !.col = 0,"),
    ("P14", "Editor", "ELSE IF e2.cur > 0 /\\ t[e2.cur] = BSL", "ELSE IF t # <<>> /\\ t[Len(t)] = BSL"),
    ("P14", "Session", "[] IsCtrl(key, 100) /\\ CurText(e) = <<>> ->", "[] IsCtrl(key, 100) /\\ e.cur = 0 ->"),
    ("P15", "History", "KeepLast(s, n) == IF Len(s) > n THEN Drop(s, Len(s) - n) ELSE s", "KeepLast(s, n) == IF Len(s) > n + 1 THEN Drop(s, Len(s) - n) ELSE s"),
    ("P15", "History", "LET h1 == [h EXCEPT !.buf = KeepLast(Append(@, item), h.maxb)] IN", "LET h1 == [h EXCEPT !.buf = Take(Append(@, item), h.maxb)] IN"),
    ("P15", "History", "IF ~h.dup /\\ h.buf # <<>> /\\ h.buf[Len(h.buf)] = item THEN Res", "IF ~h.dup /\\ item \\in ToSet(h.buf) THEN Res"),
    ("P16", "History", "LET h1 == [h EXCEPT !.buf = KeepLast(@, h.maxf)]\n    IN  Res(h1", "LET h1 == [h EXCEPT !.buf = Take(@, h.maxf)]\n    IN  Res(h1"),
    ("P16", "History", "f2 == IF f = <<>> THEN f ELSE <<f[1] \\o item \\o <<NL>>>>", "f2 == IF f = <<>> \\/ h.cw = 29 THEN f ELSE <<f[1] \\o item \\o <<NL>>>>"),
    ("P16", "History", "kept == KeepLastCopies(KeepLast(es, h.maxf))", "kept == Front(KeepLastCopies(KeepLast(es, h.maxf)))"),
    ("P17", "History", "LET h4 == IF f2 = <<>> THEN h3 ELSE LoadTest(h3, f2[1], 0, FALSE)", "LET h4 == h3"),
    ("P17", "History", "kept == KeepLastCopies(KeepLast(es, h.maxf))", "kept == KeepLastCopies(KeepLast(es, h.maxb))"),
    ("P17", "RaceOps", "g == <<f[1] \\o P.ev.t \\o <<NL>>>>", "g == <<ContentOf(h.buf)>>"),
    ("P18", "Filename", "N(p) == p[Len(p)]", "N(p) == p[1]"),
    ("P18", "Filename", "ELSE (IF Head(t) = SPACE THEN <<BSL, SPACE>> ELSE <<Head(t)>>) \\o Escape(Tail(t))", "ELSE <<Head(t)>> \\o Escape(Tail(t))"),
    ("P20", "Words", "IF w[k][1] = c THEN OnLeft(k - 1)", "IF w[k][1] + 1 = c THEN OnLeft(k - 1)"),
    ("P20", "Words", "ELSE InSpace(left - 1, IF left = n THEN -1 ELSE left)", "ELSE InSpace(left - 1, left)"),
    ("P20", "Words", "IN  IF after = {} THEN n ELSE MinOf(after) - 1", "IN  IF after = {} THEN n ELSE MinOf(after)"),
    ("P21", "Session", "[] IsCtrl(key, 100) /\\ CurText(e) = <<>> -> [S0", "[] IsCtrl(key, 100) /\\ CurText(e) = <<>> -> after([S0"),
    ("P21", "Session", "LET S0 == Notify(cfg, [S EXCEPT !.r = 0, !.lg = <<>>, !.e.args = <<>>], \"B\", pressed)", "LET S0 == Notify(cfg, [S EXCEPT !.r = 0, !.lg = <<>>, !.e.args = <<>>], \"B\", IF IsCtrl(pressed, 104) THEN Key(\"Backspace\", 0) ELSE pressed)"),
    ("P22", "Render", "\\o ColourArgs(Tail(lines), left - Len(Head(lines)) - 1)", "\\o ColourArgs(Tail(lines), left - Len(Head(lines)))"),
    ("P23", "Emacs", "e1 == IF going THEN DeleteUntil(e, m.a) ELSE e", "e1 == IF going THEN DeleteWordBefore(e, TRUE) ELSE e"),
    ("P23", "Emacs", "going == m.la # -1 /\\ e.cur = m.c /\\ CurText(e) = m.t", "going == m.la # -1"),
    ("P24", "Vi", "[] m = \"N\" -> [s EXCEPT !.e = Display([@ EXCEPT !.pm = IF @ = \"-\" THEN \"-\" ELSE \"N\"])]", "[] m = \"N\" -> s"),
    ("P24", "Vi", "IN  ShowMode([e |-> [EndGroups", "IN  ([e |-> [EndGroups"),
]


def main():
    only = set(sys.argv[1:])
    spec = lib.SPEC
    bad = 0
    for prop, module, old, new in WRONG:
        if (only and prop not in only):
            continue
        with lib.Work() as work:
            d = tempfile.mkdtemp(dir=work)
            lib.SPEC = os.path.join(d, "spec")
            shutil.copytree(spec, lib.SPEC)
            path = os.path.join(lib.SPEC, module + ".tla")
            with open(path) as f:
                text = f.read()
            if old not in text:
                print("%s %s: nothing to replace: %s" % (prop, module, old.split("\n")[0]))
                bad += 1
                continue
            if prop == "P21" and "after([S0" in new:
                new += ""
                text = text.replace(old + " EXCEPT !.e = nl.e, !.r = 3]", new + " EXCEPT !.e = nl.e, !.r = 3])")
            else:
                text = text.replace(old, new)
            with open(path, "w") as f:
                f.write(text)
            how = "NOT NOTICED"
            for m in models.of(prop, "quick"):
                try:
                    m.run(work)
                except lib.ToolError as e:
                    how = "noticed" if "LawHolds is violated" in str(e) else "noticed (TLC cannot evaluate it)" if "Error: " in str(e) else "TOOL " + str(e)[-300:]
                    break
            bad += how == "NOT NOTICED"
            print("%s %s: %s: %s" % (prop, module, how, new.split("\n")[-1].strip()[:100]), flush=True)
        lib.SPEC = spec
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
