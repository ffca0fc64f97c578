"""Bounded models of the specification, explored by TLC, and the behaviours
they give to be replayed in the code."""
import json
import os
from concurrent.futures import ThreadPoolExecutor

import gen
import lib
from gen import BSP, DEL, DOWN, END, ENTER, ESC, HOME, LEFT, RIGHT, TAB_, UP, alt, ch, config, cps, ctrl, ev, key, keys

LINE = '"T '


def chars(s):
    return [key(ch(c)) for c in s]


class Model:
    """A model of sessions: groups of starts, an alphabet and a depth each."""
    module, kind = "MC_Ed", "ed"

    def __init__(self, name, law, log=False, drawn=False, deep=False, longest=60):
        self.name, self.law = name, law
        self.opts = {"law": law, "log": log, "drawn": drawn, "deep": deep, "longest": longest}
        self.starts, self.keys = [], []

    def group(self, cfgs, alphabet, depth, pre=()):
        """pre: one list of events per way to start."""
        self.keys.append(alphabet)
        for cfg in cfgs:
            for p in (pre or [[]]):
                self.starts.append({"cfg": cfg, "pre": p, "alph": len(self.keys), "depth": depth})
        return self

    def explore(self, work, shards=None):
        """[(start, path, shown)], statistics."""
        n = min(shards or lib.CORES, len(self.starts))
        # starts are dealt to the shards in turn
        parts = [list(range(i, len(self.starts), n)) for i in range(n)]

        def one(part):
            path = os.path.join(work, "model-%s-%d.json" % (self.name, part[0]))
            with open(path, "w") as f:
                json.dump(dict(self.opts, starts=[self.starts[i] for i in part], keys=self.keys), f)
            out = path + ".out"
            rc, out, made, dist, left = lib.tlc(self.module + ".tla", self.module + ".cfg", work, env={"MODEL": path}, heap="3g", out=out)
            tr, tail, errs = [], [], []
            with open(out, errors="replace") as f:
                for line in f:
                    if line.startswith(LINE):
                        s, p, shown = json.loads(lib.unquote(line.rstrip("\n")[3:-1]))
                        tr.append((part[s - 1], self.step(p), shown))
                    else:
                        tail = (tail + [line])[-80:]
                        if "Error" in line:
                            errs = (errs + [line])[:10]
            os.remove(out)
            os.remove(path)
            if rc != 0:
                raise lib.ToolError("model %s: %s" % (self.name, "".join(errs + tail)))
            return tr, dist, made

        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(one, parts))
        return [t for r in res for t in r[0]], sum(r[1] for r in res), sum(r[2] for r in res)

    def session(self, start, path):
        st = self.starts[start]
        alph = self.keys[st["alph"] - 1]
        return {"kind": self.kind, "cfg": st["cfg"], "ev": [dict(e) for e in st["pre"]] + [dict(alph[k - 1]) for k in path]}

    step = staticmethod(tuple)

    def last(self, start, path):
        """What the last step of a behaviour is called."""
        return lib.show_event(self.keys[self.starts[start]["alph"] - 1][path[-1] - 1])

    def ended(self, start, path):
        return len(path) < self.starts[start]["depth"]

    def run(self, work):
        tr, states, made = self.explore(work)
        want = {(s, p): x for s, p, x in tr}
        inner = {(s, p[:-1]) for s, p, _ in tr}
        leaves = [(s, p) for s, p, _ in tr if (s, p) not in inner]
        leaves.sort()
        actions = {}
        for s, p, x in tr:
            t = self.last(s, p)
            actions[t] = actions.get(t, 0) + 1
        depth = max((len(p) for _, p, _ in tr), default=0)
        full = all(self.ended(s, p) for s, p, _ in tr)
        return {"name": self.name, "states": states, "transitions": len(tr), "exhaustive": True, "behaviours": len(leaves), "depth": depth,
                "unbounded": full, "actions": actions, "leaves": leaves, "want": want}

    def replay(self, res, work):
        """The behaviours in the code, and where it goes another way."""
        recs = lib.run_code([self.session(*l) for l in res["leaves"]], work)
        return recs, self.compare(res, recs)

    def compare(self, res, recs):
        """Mismatches of the recorded leaves with what the model shows."""
        out = []
        for k, ((s, p), rec) in enumerate(zip(res["leaves"], recs)):
            npre = len(self.starts[s].get("pre", []))
            for i, e in enumerate(rec["ev"]):
                o = e["o"]
                if o["r"] in (8, 9):
                    out.append({"rec": k, "i": i + 1, "d": ["r"], "exp": res["want"].get((s, p[:i + 1 - npre]), {})})
                    break
                if i < npre:
                    continue
                exp = res["want"][(s, p[:i + 1 - npre])]
                d = self.differs(rec["cfg"], e, exp, o)
                if d:
                    out.append({"rec": k, "i": i + 1, "d": d, "exp": exp})
                    break
        return out

    def differs(self, cfg, e, exp, o):
        d = []
        for f in cfg["cmp"]:
            if f in ("r", "t", "c", "h", "s", "n", "lg", "ar", "hs", "fl"):
                bad = o[f] != exp[f]
            elif f == "scr":
                x, y = exp["scr"], o["scr"]
                bad = x["g"] != y["g"] or x["y"] != y["y"] or x["x"] != y["x"] or y["u"] != 0
            elif f == "att":
                bad = o["scr"]["g"] == exp["scr"]["g"] and o["scr"]["a"] != exp["att"]
            elif f == "safe":
                bad = not 0 <= o["c"] <= len(o["t"]) or (o["r"] == 0 and o["t"] and o["c"] == len(o["t"]) and o["n"])
            elif f == "ind":
                x = exp["ind"]
                g = o["scr"]["g"]
                row = g[x["row"]] if x["row"] < len(g) else []
                n = len(x["cells"])
                bad = n > 0 and (row + [32] * n)[:n] != x["cells"]
            elif f == "cl":
                w = exp["cl"]
                bad = o["cl"] and w and o["cl"][-len(w):] != w
            else:
                bad = False
            if bad:
                d.append(f)
        return d


# --- what is explored ---------------------------------------------------------
def at(n):
    """The cursor at n."""
    return [ev("to", n=n)]


def places(text):
    return [at(n) for n in range(len(text) + 1)]


def viat(text):
    """Normal mode, the cursor on each character."""
    return [keys([ESC]) + at(n) for n in range(max(1, len(text)))]


def hist(*l):
    return [cps(x) for x in l]


def typing(s):
    return keys([ch(c) for c in s])


FULL_EMACS = keys([BSP, DEL, LEFT, RIGHT, UP, DOWN, HOME, END, TAB_, ENTER, ESC] + [ctrl(c) for c in "aebfdpnukwxrshlctg"] +
                  [alt(c) for c in "<>fbr.z"] + [alt(127), gen.K("PageUp"), gen.K("F", 1), gen.K("Null"), ch("a"), ch(" "), ch("\\"), ch("世")])
FULL_VI = keys([BSP, DEL, LEFT, RIGHT, UP, DOWN, HOME, END, TAB_, ENTER, ESC, ctrl("r"), ctrl("s"), ctrl("f"), ctrl("l"), ctrl("h"), ctrl("d"), ctrl("c"),
                ctrl("["), ctrl("x")] + [ch(c) for c in "iaAIsrdcDC.hlkjtTfF;,wWeEbBg0^$x~u123 zé"])


def p01(deep):
    m = Model("everything", "P01", longest=40)
    base = dict(hist=hist("foo", "foobar", "世 b", ""), cand=hist("fo", "foo bar", "世"), call=True, cmp=["safe"])
    sizes = [(0, "$ "), (1, ""), (2, "世"), (3, "ab> "), (10, "$ "), (80, "$ ")]
    for w, pr in sizes:
        for t in ["", "ab c", "世f é"]:
            c = dict(base, w=w, pr=cps(pr), init=cps(t))
            m.group([config(**c)], FULL_EMACS, 2, [[]] if not deep else places(t))
            m.group([config(vi=True, pm="I", pn=cps("N"), pi=cps("I"), **c)], FULL_VI, 2, [[], keys([ESC])])
    # another session cuts the file a shared history is read from
    sh = dict(fn=True, share=True, inc=True, f=[cps("ab\nfoo\nabc\n")], cmp=["safe"])
    for t in ["", "a"]:
        m.group([config(init=cps(t), **sh)], keys([UP, DOWN, ch("b"), BSP, alt("<"), ctrl("r")]) + [ev("peerw", t=cps("ab\n")), ev("peerw")], 4 if not deep else 5)
    # the line changed directly, then keys
    m.group([config(init=cps("ab c"), **dict(base, w=10))], [ev("trunc", n=0), ev("trunc", n=1), ev("bins", t=cps("x")), ev("noeol", n=1), ev("hpush", t=cps("ab"))]
            + keys([ctrl("l"), LEFT, ch("a"), BSP, UP, DOWN, ctrl("x"), ctrl("w"), ctrl("r"), ctrl("f")]), 3 if not deep else 4)
    # counts no line is as long as
    m.group([config(vi=True, init=cps("ab c"), **dict(base, w=10))], [e for c in ("d", "c", "y") for e in keys([ch(c)])] + [ev("key", ch("9"), n=gen.FREE), ev("key", ch("0"), n=gen.FREE)]
            + keys([ch(x) for x in "lhwbx"]), 2 if not deep else 3,
            [[key(ESC), key(ch("0"))] + [ev("key", ch("9"), n=gen.FREE)] * n + keys(op) + [ev("key", ch("9"), n=gen.FREE)] * k for n in (1, 5, 12) for op in ([], [ch("d")], [ch("c")]) for k in (0, 5, 12)])
    if deep:
        for pr in ["", "$ "]:
            c = dict(base, w=3, pr=cps(pr), init=cps("fo b"))
            m.group([config(**c)], FULL_EMACS, 3)
            m.group([config(vi=True, **c)], FULL_VI, 3, [keys([ESC])])
    return [m]


def p04(deep):
    m = Model("undo", "P04", log=True, longest=14)
    cmp = ["r", "t"]
    em = keys([ch("a"), BSP, ctrl("u"), LEFT, ctrl("x"), ctrl("w")]) + [ev("redo")]
    m.group([config(init=cps("b c"), cmp=cmp)], em, 6 if deep else 5)
    m.group([config(init=cps(""), hist=hist("x y"), cmp=cmp)], keys([ch("a"), BSP, ctrl("x"), alt("r"), UP, DOWN]), 6 if deep else 5)
    v = keys([ch("i"), ch("x"), ESC, ch("u"), BSP, ch("~")]) + [ev("core", ctrl("r"))]
    m.group([config(vi=True, init=cps("b c"), cmp=cmp)], v, 6 if deep else 5, [[], keys([ESC])])
    v2 = keys([ch("c"), ch("w"), ch("d"), ESC, ch("u"), ch("2"), ch("r"), ch("."), ch("a")])
    m.group([config(vi=True, init=cps("b c d"), cmp=cmp)], v2, 5 if deep else 4, [keys([ESC, ch("0")]), keys([ESC, ch("0"), ch("c"), ESC])])
    # a change given up, then changes undone and done again
    m.group([config(vi=True, init=cps("b c d"), cmp=cmp)], keys([ch("x"), ch("u"), ch("c"), ESC]) + [ev("core", ctrl("r"))], 7 if deep else 6,
            [keys([ESC, ch("0"), ch("c"), ESC]), keys([ESC, ch("0"), ch("c"), ch("f"), ESC])])
    m.group([config(vi=True, init=cps("ab"), hist=hist("x y"), cmp=cmp)], keys([ch("i"), ch("k"), ESC, UP, DOWN, ch("x"), ch("u")]), 5 if deep else 4,
            [[], keys([ESC])])
    return [m]


def p05(deep):
    m = Model("emacs", "P05")
    edit = keys([BSP, DEL, ctrl("h"), ctrl("d"), ctrl("u"), ctrl("k"), ctrl("w"), alt(127), LEFT, RIGHT, HOME, END, ctrl("a"), ctrl("e"),
                 ctrl("b"), ctrl("f"), alt("f"), alt("b"), ch("a"), ch(" "), ch("\\"), ctrl("x"), ctrl("t"), alt("q")])
    lines = ["", "ab", "a b", " a", "a ", "a  b", "  ", "ab cd ef", "a\\ b c", "\\", "é世 b"]
    for t in lines:
        m.group([config(init=cps(t))], edit, 2 if not deep else 3, places(t))
    word = keys([ctrl("w"), alt(127), alt("f"), alt("b"), BSP, ch(","), ch("a"), LEFT])
    for t in ["a,bc", ",a b,,c", "a.b--c d", "(x)y ", "a\\ ,\\ b"]:
        m.group([config(init=cps(t), wd=k) for k in (1, 2)], word, 2 if not deep else 4, places(t))
    small = keys([ch("a"), ch(" "), LEFT, BSP, ctrl("w"), alt("f"), alt("b"), ctrl("k"), ctrl("d")])
    m.group([config()], small, 5 if not deep else 7)
    return [m]


VI_LINES = ["", "a", "foo bar", "a.b, cd", "  x  y ", "foo.bar_1 -- éñ", "((a", "aXbXcX"]


def p06(deep):
    m = Model("motions", "P06")
    mot = keys([ch(c) for c in "hlwWbBeEg0^$fFtT;,23 "] + [LEFT, RIGHT, BSP, HOME, END, ESC])
    for t in VI_LINES:
        m.group([config(vi=True, init=cps(t))], mot, 3 if not deep else 4, [keys([ESC])])
    # a motion from every place, with a count
    for t in ["foo bar", "a.b, cd", "foo  bar_1 -- éñ x", "a b c d e"] + (["x1-y2  (z) \\ w", "世世 世.世"] if deep else []):
        m.group([config(vi=True, init=cps(t))], keys([ch(c) for c in "wWbBeEhl$0"]), 2 if deep else 1,
                [p + keys([ch(c) for c in n]) for p in viat(t) for n in ["", "2", "3", "10"]])
        m.group([config(vi=True, init=cps(t))], keys([ch(c) for c in "eE"]), 1,
                [p + keys([ch(c) for c in n + "g"]) for p in viat(t) for n in ["", "2", "3"]])
    for t in ["aXbXcX", "XX aXX bX"]:
        m.group([config(vi=True, init=cps(t))], keys([ch("X"), ch("b"), ch("z"), LEFT]), 1,
                [p + keys([ch(c) for c in n + k]) for p in viat(t) for n in ["", "2", "3"] for k in "fFtT"])
        m.group([config(vi=True, init=cps(t))], keys([ch(c) for c in ";,2"]), 3 if deep else 2,
                [p + keys([ch(c) for c in k + "X"]) for p in viat(t) for k in "fFtT"])
    return [m]


def p07(deep):
    m = Model("operators", "P07", longest=24)
    for t in ["", "ab", "foo bar", "a.b c"]:
        m.group([config(vi=True, init=cps(t))], keys([ch(c) for c in "dcxsDCr~iaAIwb2l$"] + [ESC]), 3 if not deep else 4, [keys([ESC, ch("0")]), keys([ESC])])
    # an operator with every motion from every place
    mot = [""] + list("hlwWbBeE0^$") + ["ge", "gE", "fb", "tb", "Fb", "Tb", ";", ",", "fz", "d", "c", "z", "2w", "3e", "2l", "2h", "2b", "2fb", "0", "2ge", " "]
    for t in ["foo bar", "ab.b  b", "a b b c"] + (["x-y bb_1 b", "  b  "] if deep else []):
        for op in ["d", "c", "2d", "2c"]:
            pre = [p + keys([ch(c) for c in op + q]) for p in viat(t) for q in mot]
            m.group([config(vi=True, init=cps(t))], keys([ch("x"), ESC]), 2 if deep else 1, pre)
        pre = [p + keys([ch(c) for c in n]) for p in viat(t) for n in ["", "2", "3", "9"]]
        m.group([config(vi=True, init=cps(t))], keys([ch(c) for c in "xsDC~r"] + [DEL]), 1, pre)
        m.group([config(vi=True, init=cps(t))], keys([ch("z"), ESC, LEFT]), 1, [p + keys([ch("r")]) for p in pre])
        m.group([config(vi=True, init=cps(t))], keys([ch("z"), BSP, DEL, ESC]), 2, [p + keys([ch(i)]) for p in pre[:8] for i in "iaAIsC"])
    return [m]


def p08(deep):
    m = Model("dot", "P08", longest=60)
    cmds = ["x", "2x", "~", "3~", "rz", "2rz", "D", "dw", "2dw", "d2w", "de", "db", "dd", "dfb", "dtb", "d;", "ix<", "2ix<", "aXY<", "A!<", "I-<", "sq<", "2sq<", "Cq<",
            "cwq<", "c2wq<", "ccq<", "cbq<", "cfbq<", "cw<", "i<", "dge", "cgeq<", "d$", "c$q<", "dF ", "daz", "r<", "d<", "ixy^h<", "cwq^h<"]

    def typed_(c):
        out = []
        for x in c.replace("^h", "\x08"):
            out.append(ESC if x == "<" else BSP if x == "\x08" else ch(x))
        return keys(out)
    for t in ["foo bar b bb", "a.b c.b"]:
        m.group([config(vi=True, init=cps(t))], keys([ch(c) for c in ".2lw0u"]), 3 if not deep else 4,
                [keys([ESC] + [ch(p)]) + typed_(c) for c in cmds for p in "0$"])
    m.group([config(vi=True, init=cps("ab cd"))], keys([ch(c) for c in "ixd.2w"] + [ESC]), 4 if not deep else 6, [[], keys([ESC, ch("0")])])
    return [m]


def p09(deep):
    m = Model("browsing", "P09")
    c = dict(cmp=["r", "t", "c", "h", "hs"], want=["hs"])
    nav = keys([UP, DOWN, ctrl("p"), ctrl("n"), alt("<"), alt(">"), ch("f"), BSP, ctrl("x"), ctrl("u")])
    hs = [hist("f", "ba", "f", "foo f", "b"), hist("bar", "foo", "f", "", "of"), hist("f"), [], hist("xf", "fa", "f", "of", "fb", "b")]
    for h in hs:
        m.group([config(hist=h, **c), config(hist=h, init=cps("f"), **c)], nav, 4 if not deep else 6)
    v = keys([UP, DOWN, ch("k"), ch("j"), ESC, ch("i"), ch("f"), ch("x"), ch("u")])
    for h in hs[:2]:
        m.group([config(vi=True, hist=h, **c)], v, 4 if not deep else 5, [[], keys([ESC]), keys([ch("f"), ESC])])
    return [m]


def p10(deep):
    m = Model("search", "P10", drawn=True)
    c = dict(w=60, cmp=["r", "t", "c", "h", "s", "scr"], want=["scr"])
    al = keys([ctrl("r"), ctrl("s"), ch("f"), ch("o"), BSP, ctrl("f"), LEFT])
    al2 = keys([ctrl("r"), ctrl("s"), UP, DOWN, ch("f"), DEL, HOME, ENTER, ctrl("l"), alt("<")])
    hs = [hist("foo", "bar", "of f", "fo", "f"), hist("f", "f", "xf"), hist("b")]
    for h in hs:
        m.group([config(hist=h, **c), config(hist=h, init=cps("f"), **c)], al, 4 if not deep else 6)
    m.group([config(hist=hs[0], **c), config(hist=hs[0], init=cps("o"), **c), config(hist=hs[1], vi=True, **c)], al2, 3 if not deep else 5)
    return [m]


def p11(deep):
    m = Model("suggestion", "P11", drawn=True)
    c = dict(w=60, cmp=["r", "t", "c", "s", "scr"], want=["scr"])
    al = keys([ch("f"), ch("o"), BSP, ctrl("f"), RIGHT, LEFT, UP, ctrl("u")])
    hs = [hist("foo", "fo", "b", "fob"), hist("f", "ff", "f f"), hist("o", "")]
    for h in hs:
        m.group([config(hist=h, **c)], al, 5 if not deep else 7)
    m.group([config(hist=hs[0], vi=True, **c)], keys([ch("f"), ch("o"), ESC, RIGHT, ctrl("f"), ch("a"), ch("l"), ENTER, DOWN, UP]), 4 if not deep else 5)
    return [m]


def p12(deep):
    m = Model("completion", "P12", drawn=True, longest=30)
    c = dict(w=40, cmp=["r", "t", "c", "ar", "scr"], want=["ar", "scr"])
    al = keys([TAB_, ch("f"), ch(" "), BSP, LEFT, ENTER, HOME])
    cands = [hist("foo", "fob", "foo"), hist("f o", "x"), hist("foo"), hist("b", "a", "f"), hist("世f", "世世"), hist("fo", "foo", "f")]
    for cd in cands:
        for t in ["", "f", "x f y"]:
            pre = [[]] if t != "x f y" else [at(3)]
            m.group([config(init=cps(t), cand=cd, call=cl, **c) for cl in ([False, True] if t == "f" else [True])], al, 3 if not deep else 5, pre)
    for k, t, n in [(1, "x y,f,z", 5), (1, "a,f", 3), (2, "x=f", 3), (2, "x.(f)", 4), (2, "f+", 1)]:
        m.group([config(init=cps(t), wd=k, cand=cd, call=cl, **c) for cd in (hist("foo", "fob"), hist("foo"), hist("f,o", "f o", "=")) for cl in (False, True)],
                keys([TAB_, LEFT, ch("f"), ch(","), BSP]), 3 if not deep else 5, [at(n)])
    v = keys([TAB_, ESC, ch("a"), ch("f"), ch("h"), ch("l"), ENTER])
    for cd in cands[:4]:
        m.group([config(vi=True, init=cps("x f y"), cand=cd, call=True, **c)], v, 4 if not deep else 5, [at(3), keys([ESC]) + at(2)])
    m.group([config(vi=True, init=cps("f"), cand=cands[0], call=True, **c)], v, 4 if not deep else 5, [[], keys([ESC])])
    return [m]


def p13(deep):
    m = Model("screen", "P13", drawn=True, longest=20)
    c = dict(cmp=["r", "t", "c", "scr"], want=["scr"], hist=hist("ab", "abcdefgh"), cand=hist("abc", "b", "cdefgh"), call=True, rows=[cps("top")])
    al = keys([ch("a"), ch("世"), BSP, LEFT, HOME, TAB_, UP, ctrl("r"), ENTER, ctrl("l"), DOWN])
    for w, pr, pre in [(4, "$ ", []), (6, ">", [cps("up")]), (5, "", []), (6, "世 ", []), (4, "abcd> ", [])]:
        for t in ["", "abc", "abcdefgh"]:
            m.group([config(w=w, pr=cps(pr), pre=pre, init=cps(t), **c)], al, 2 if not deep else 3, [[], at(1)] if t else [[]])
    ed = keys([ch("a"), BSP, LEFT, ch("\\"), ENTER, HOME, END])
    m.group([config(w=4, pr=cps("$ "), init=cps("ab"), **c), config(w=5, pr=cps("$ "), init=cps("ab\nc"), **c)], ed, 4 if not deep else 6)
    m.group([config(w=7, vi=True, pm="I", pn=cps("N "), pi=cps("I "), pr=cps("$"), init=cps("abc"), **c)], keys([ESC, ch("i"), ch("x"), ch("A"), ch("d"), ch("h"), ch("世")]), 3 if not deep else 5)
    m.group([config(w=7, vi=True, pr=cps("$"), init=cps("ab"), **dict(c, hist=hist("abcdefgh", "abx\ny")))],
            keys([ESC, ch("a"), ch("b"), ch("h"), UP, TAB_, ENTER, ctrl("f"), ctrl("r"), ctrl("c")]), 3 if not deep else 4)
    return [m]


class Reads(Model):
    """The same behaviours, each as one call that reads a line."""
    kind = "rl"

    def session(self, start, path):
        s = super().session(start, path)
        cfg = dict(s["cfg"], cmp=["r", "t", "used", "late"])
        init = cfg["init"]
        cfg["init"] = []
        tail = [ch("z"), ENTER]
        return {"kind": "rl", "cfg": cfg, "ev": [dict(gen.read([e["k"] for e in s["ev"]] + (tail if self.ends(start, path) else []), init=init, push=False))]}

    def ends(self, start, path):
        return self.want_[(start, path)]["r"] != 0

    def run(self, work):
        res = super().run(work)
        self.want_ = res["want"]
        return res

    def compare(self, res, recs):
        out = []
        for k, ((s, p), rec) in enumerate(zip(res["leaves"], recs)):
            o = rec["ev"][0]["o"]
            last = res["want"][(s, p)]
            exp = {"r": last["r"] or 1, "t": last["t"] if last["r"] in (0, 1) else [], "used": len(self.starts[s]["pre"]) + len(p), "late": 0}
            if o["r"] in (8, 9):
                out.append({"rec": k, "i": 1, "d": ["r"], "exp": exp})
                continue
            d = [f for f in ("r", "t", "used") if o[f] != exp[f]]
            if d:
                out.append({"rec": k, "i": 1, "d": d, "exp": exp})
        return out


class Faults(Model):
    """The same behaviours, each as a read in which one terminal operation
    fails, every one in turn; then another read."""
    kind = "rl"
    SECOND = [ch("b"), LEFT, ch("a"), TAB_, UP, DOWN, ENTER]

    def reads(self, start, path, fail, sticky, how=0):
        s = self.session(start, path)
        cfg = dict(s["cfg"], cmp=["r", "t", "used", "late", "hs", "fl"], init=[])
        evs = [gen.read([e["k"] for e in s["ev"]] + [ENTER, ENTER], init=s["cfg"]["init"], fail=fail, sticky=sticky, push=True, how=how)]
        return {"kind": "rl", "cfg": cfg, "ev": evs + [gen.read(self.SECOND)]}

    def replay(self, res, work):
        whole = lib.run_code([self.reads(s, p, 0, False) for s, p in res["leaves"]], work)
        ss = []
        for k, ((s, p), rec) in enumerate(zip(res["leaves"], whole)):
            # the terminal works again at once, or stays broken
            ss += [self.reads(s, p, n, st, (k * 4 + n * 7) % gen.FAILURES) for n in range(1, rec["ev"][0]["o"].get("ops", 0) + 1) for st in (False, True)
                   if self.deep or st == ((k + n) % 2 == 0)]
        recs = whole + lib.run_code(ss, work)
        res["faults"] = len(ss)
        _, mm, _ = lib.validate("TraceRl", recs, work)
        return recs, mm


def p19(deep):
    m = Faults("faults", "P01", longest=30)
    m.deep = deep
    c = dict(hist=hist("ab", "b"), cand=hist("ab", "ac"), call=True, w=10, pr=cps("$ "), cmp=[])
    d = 2 if deep else 1
    al = keys([ch("a"), ch("\\"), TAB_, ENTER, UP, ctrl("r"), ctrl("l"), ctrl("c"), ctrl("d"), LEFT, BSP, ctrl("f"), ctrl("u"), alt("r"), alt("."), ctrl("w")])
    m.group([config(**c), config(init=cps("a"), fn=True, inc=True, f=[cps("ab\n")], **dict(c, hist=[]))], al, d + 1, [[]])
    m.group([config(**c)], al, d, [keys([UP]), keys([ctrl("r"), ch("a")]), keys([ch("a"), TAB_]), typing("ab c"), typing("abcdefghijkl")])
    v = keys([ESC, ch("a"), TAB_, UP, ch("x"), ch("d"), ch("w"), ch("u"), ch("."), ch("r"), ch("i"), ENTER, ch("2"), ch("c")])
    m.group([config(vi=True, pm=pm, pn=cps("N"), pi=cps("I"), **c) for pm in "-I"], v, d + 1, [typing("ab c"), typing("ab c") + keys([ESC])])
    m.group([config(vi=True, pm="I", pn=cps("N"), pi=cps("I"), **c)], v, d, [typing("ab") + keys([ESC, ch("c")]), typing("ab c") + keys([ESC, ch("x")]), keys([ESC, ch("k")])])
    return [m]


def p14(deep):
    m = Reads("reading", "P14", longest=30)
    al = keys([ch("a"), ch("\\"), ENTER, LEFT, ctrl("c"), ctrl("d"), ctrl("r"), UP, BSP])
    c = dict(hist=hist("ab\\", "xa"), cmp=["r", "t", "c"])
    m.group([config(**c), config(init=cps("a\\b"), **c)], al, 5 if deep else 4)
    m.group([config(cand=hist("aa", "ab"), call=True, **c)], keys([ch("a"), TAB_, ENTER, ch("\\"), DOWN, ctrl("d")]), 5 if deep else 4)
    m.group([config(vi=True, **c)], keys([ch("a"), ch("\\"), ENTER, ESC, ch("x"), ctrl("d"), UP, ch("k")]), 5 if deep else 4)
    return [m]


def p21(deep):
    m = Model("callbacks", "P21")
    c = dict(hist=hist("ab", "b"), cand=hist("xa", "xb"), call=True, cmp=["r", "t", "c", "lg", "ar"], want=["lg", "ar"])
    hooks = [gen.NOHOOK] + [{"on": on, "k": k, "op": op, "n": 0, "t": cps("Q")} for on, k, op in
                            [("B", ch("x"), "ins"), ("A", ch("x"), "ins"), ("A", ch("x"), "start"), ("C", gen.NOKEY, "ins"), ("B", LEFT, "end"), ("A", UP, "db"),
                             ("B", TAB_, "start"), ("A", TAB_, "skip"), ("B", ctrl("d"), "dab"), ("B", ctrl("r"), "trunc"), ("A", UP, "bins"), ("A", BSP, "hpush"),
                             ("A", ch("x"), "noeol")]]
    al = keys([ch("x"), LEFT, BSP, ctrl("h"), TAB_, ENTER, UP, ctrl("d"), ctrl("c"), ctrl("r"), ctrl("f"), DEL, gen.K("F", 2), ch("\\")])
    # changes made directly to the line before a key that only draws it
    for n in (0, 1):
        m.group([config(init=cps("bcd"), hook={"on": "B", "k": ctrl("l"), "op": "trunc", "n": n, "t": []}, **c)], keys([ctrl("l"), LEFT, ch("x"), BSP, UP, DOWN, ctrl("x"), END]), 4 if not deep else 5)
    for h in hooks:
        m.group([config(init=cps("b"), hook=dict(h), **c)], al, 2 if not deep else 3)
        m.group([config(init=cps("b"), vi=True, hook=dict(h), **c)], keys([ch("x"), ESC, TAB_, UP, ch("d"), ch("w"), ENTER, LEFT, ch(".")]), 2 if not deep else 3)
    m.group([config(**c)], al, 3 if not deep else 4)
    return [m]


def p22(deep):
    m = Model("colours", "P22", drawn=True, longest=30)
    c = dict(cmp=["r", "t", "c", "scr", "att", "cl"], want=["scr", "cl"], hist=hist("foo\nb", "fo", "é\n\nx"), cand=hist("fa", "fb"), call=True)
    al = keys([ch("f"), ch("é"), BSP, LEFT, UP, ctrl("r"), ctrl("f"), TAB_, ENTER])
    for w, pr, codes, clo, seq in [(20, "ab>", True, True, 0), (10, "$ ", True, True, 1), (10, "$ ", False, True, 2), (9, "abc", True, False, 3),
                                   (8, "$ ", True, True, 2)]:
        for t in ["", "fo", "a\nbc"]:
            m.group([config(w=w, pr=cps(pr), codes=codes, clo=clo, seq=seq, init=cps(t), **c)], al, 3 if not deep else 4)
    return [m]


def p23(deep):
    m = Model("lastarg", "P23", log=False, longest=40)
    al = keys([alt("."), ch("a"), ch(" "), LEFT, BSP, UP, DOWN, ctrl("x")])
    for h in [hist("a b", "", "c", "d  "), hist("é 世", "x"), hist(" ", "y z", "y z"), []]:
        for t in ["", "q r"]:
            m.group([config(hist=h, init=cps(t))], al, 4 if not deep else 5, [[]] if not t else [[], at(1)])
    # other keys between, that the bindings do not see
    for h in [hist("a b", "c", "d"), hist("b c")]:
        m.group([config(hist=h, init=cps(t), cand=hist("ba", "da", "db"), call=True) for t in ("", "q ")],
                keys([alt("."), TAB_, ctrl("r"), ctrl("f"), ctrl("l"), alt("z"), ENTER]), 4 if not deep else 6)
    return [m]


def p24(deep):
    m = Model("indicator", "P24", drawn=True, longest=16)
    c = dict(vi=True, pm="I", pn=cps("[N]"), pi=cps("[I]"), hist=hist("ab", "c"), cmp=["ind"], want=["scr"])
    al = keys([ESC, ch("i"), ch("a"), ch("d"), ch("c"), ch("r"), ch("f"), ch("g"), ch("w"), ch("2"), ch("x"), ch("."), ch("s"), UP, ch("~"), ctrl("r")])
    m.group([config(init=cps("ab c"), **c)], al, 3 if not deep else 4, [[], keys([ESC])])
    m.group([config(init=cps("ab"), **c), config(**c)], al + keys([ch("C"), ch("A"), LEFT, BSP, ctrl("l"), TAB_, ctrl("["), ctrl("s")]) + [ev("prompt", t=cps("%")), ev("prompt", n=1, t=cps("%"))], 2 if not deep else 3,
            [[], keys([ESC]), keys([ESC, ch("c")]), keys([ESC, ch("d")])])
    return [m]


# --- the other parts -------------------------------------------------------------
class Buffers(Model):
    """Buffers; a path is made of whole events."""
    module, kind = "MC_Buf", "buf"

    def __init__(self, name, depth, starts, texts=(), others=(), ends=False, all=False, undo=False, ask=False, nest=0, loose=False, longest=8):
        super().__init__(name, "")
        self.opts = {"texts": [cps(t) for t in texts], "others": [cps(t) for t in others], "ends": ends, "all": all, "undo": undo, "ask": ask,
                     "nest": nest, "loose": loose, "longest": longest}
        self.starts = [{"cfg": {"init": cps(t)}, "depth": depth} for t in starts]

    @staticmethod
    def step(path):
        return tuple(json.dumps(e, sort_keys=True) for e in path)

    def last(self, start, path):
        e = json.loads(path[-1])
        return "query" if e["q"] else e["op"]

    def ended(self, start, path):
        return len(path) < self.starts[start]["depth"] or json.loads(path[-1])["q"]

    def session(self, start, path):
        return {"kind": "buf", "cfg": self.starts[start]["cfg"], "ev": [json.loads(e) for e in path]}

    def differs(self, cfg, e, exp, o):
        d = [f for f in ("t", "ret") if o[f] != exp[f]]
        if exp["q"]:
            d += [f for f, v in exp["q"][0].items() if o[f] != v]
        return d


class Histories(Model):
    """Histories and their file."""
    module, kind = "MC_Hist", "hist"

    def last(self, start, path):
        return self.keys[self.starts[start]["alph"] - 1][path[-1] - 1]["op"]

    def differs(self, cfg, e, exp, o):
        # the list, or the file as well
        skip = ("f", "g") if self.opts["law"] == "P15" else ()
        return [f for f in exp if f not in skip and o[f] != exp[f]]


class Races(Model):
    """Schedules of sessions on one history file."""
    module, kind = "MC_Race", "race"

    def __init__(self, name, deep=False):
        super().__init__(name, "")
        self.opts = {"deep": deep}

    def add(self, cfg, pre, prog):
        self.starts.append({"cfg": dict(cfg, peers=len(prog), pre=pre, prog=prog)})

    def last(self, start, path):
        return "session %d" % path[-1]

    def ended(self, start, path):
        return True

    def session(self, start, path):
        return {"kind": "race", "cfg": self.starts[start]["cfg"], "ev": [{"op": "g", "p": p - 1} for p in path]}

    def differs(self, cfg, e, exp, o):
        return [f for f in ("f", "n", "b") if o[f] != exp[f]]


class WordLists(Model):
    """Lines and lists of words; every answer is a session of its own."""
    module, kind = "MC_Words", "words"

    def __init__(self, name, longest, alphabet, span, words):
        super().__init__(name, "")
        self.opts = {"longest": longest, "alphabet": cps(alphabet), "span": span, "words": words}
        self.starts = [{"depth": 1}]

    @staticmethod
    def step(path):
        return (json.dumps(path),)

    def last(self, start, path):
        return "classify"

    def ended(self, start, path):
        return False

    def run(self, work):
        return bundle(super().run(work), 40)

    def session(self, start, path):
        ev = [json.loads(p) for p in path]
        return {"kind": "words", "cfg": {"x": 0}, "ev": [{"op": "w", "t": t, "n": p, "w": w} for t, p, w in ev]}

    def differs(self, cfg, e, exp, o):
        return [f for f in ("w", "p", "g") if o[f] != exp[f]]


class Files(Model):
    """Completions of every text on trees."""
    module, kind = "MC_Fn", "fname"

    def group(self, cfgs, alphabet, depth, inits=("",)):
        self.keys.append(cps(alphabet))
        for c in cfgs:
            for t in inits:
                self.starts.append({"cfg": c, "init": cps(t), "alph": len(self.keys), "depth": depth})
        return self

    @staticmethod
    def step(path):
        return (json.dumps(path),)

    def last(self, start, path):
        return "complete"

    def ended(self, start, path):
        return False

    def run(self, work):
        return bundle(super().run(work), 40)

    def session(self, start, path):
        return {"kind": "fname", "cfg": self.starts[start]["cfg"], "ev": [{"op": "c", "t": json.loads(p)} for p in path]}

    def differs(self, cfg, e, exp, o):
        return [] if sorted(o["l"]) == sorted(exp["l"]) else ["l"]


def bundle(res, n):
    """Put answers that do not depend on one another into sessions of n."""
    leaves, want = [], {}
    by = {}
    for s, p in res["leaves"]:
        by.setdefault(s, []).append(p)
    for s, ps in by.items():
        for i in range(0, len(ps), n):
            path = tuple(p[0] for p in ps[i:i + n])
            leaves.append((s, path))
            for k in range(len(path)):
                want[(s, path[:k + 1])] = res["want"][(s, (path[k],))]
    return dict(res, leaves=leaves, want=want)


def p02(deep):
    return [Buffers("edits", 5 if deep else 4, ["", "ab", "é世 "], texts=["", "a", "é世", " \n"], all=True, longest=6 if deep else 5),
            Buffers("queries", 2, ["", "a  b", "世 é\n\nb", " ab ", "a\nb", "aab"], texts=["a", "é\n ", "  "], others=["", "a", "a ", "aa", "a  b", "世", "\n", "é世"],
                    ends=True, ask=True, longest=6)]


def p03(deep):
    return [Buffers("single", 5 if deep else 4, ["", "ab"], texts=["x", "yz"], ends=True, all=True, undo=True, longest=4),
            Buffers("groups", 7 if deep else 6, ["", "b"], texts=["x"], ends=True, undo=True, nest=3, longest=3)]


def p15(deep):
    m = Histories("list", "P15")
    h = gen.hev
    al = [h("push", t=cps(t), u=cps(u), x=x) for t, u, x in [("a", "a", -1), ("ab", "a", 1), ("b", "b", 2), ("", "", 0), ("a\nb", "a\n", -1)]]
    al += [h("rmdup", t=cps("a"), u=cps("ab")), h("rmdup", t=cps("ab"), u=cps("a")), h("clear"), h("maxb", n=1, u=cps("b"), x=-1), h("dup", n=0), h("dup", n=1),
           h("commitother"), h("loadother"), h("maxf", n=2), h("nop", u=cps("b"), x=1)]
    m.group([gen.hcfg(dup=d, maxb=n, maxf=1 if n == 3 else 1000, ldup=d) for d in (True, False) for n in (0, 1, 2, 3, 1000)], al, 5 if deep else 3)
    return [m]


def p16(deep):
    m = Histories("file", "P16")
    h = gen.hev
    t = lambda l: cps("".join(x + "\n" for x in l))
    al = [h("push", t=cps(x)) for x in ("a", "b", "#c")] + [h("commit"), h("commitpath"), h("load"), h("load", n=1), h("loadfile"), h("setfile"),
          h("commitother"), h("loadother"), h("write", t=t(["a", "#x", "b"]) + [98, -1, 10] + t(["a"])), h("append", t=cps("c")), h("unlink"), h("maxf", n=2), h("rmdup", t=cps("a"))]
    cfgs = [gen.hcfg(dup=d, inc=i, ldup=l, maxf=n, maxb=b) for d, i, l in [(True, False, True), (False, False, False), (True, True, True), (True, True, False)]
            for n, b in [(2, 3), (1000, 1000), (1, 2)]]
    m.group(cfgs, al, 4 if deep else 3, [[], [h("write", t=t(["a", "b", "a"])), h("setfile")]])
    # around a compaction
    few = [h("push", t=cps(x)) for x in ("a", "k")] + [h("load"), h("setfile"), h("append", t=cps("q\n")), h("append", t=[113, -1, 10]), h("maxf", n=2)]
    for n in (28, 29):
        pre = [h("setfile")] + [h("push", t=cps("abcdefghijk"[i % 7])) for i in range(n)]
        m.group([gen.hcfg(inc=True, ldup=False, maxf=f, maxb=b, dup=d) for f, b in [(3, 1000), (1000, 1000), (1000, 4)] for d in (True, False)], few, 4 if deep else 3, [pre])
    return [m]


def p17(deep):
    m = Histories("peers", "P17")
    h = gen.hev

    def both(op, **kw):
        return [h(op, p, **kw) for p in (0, 1)]
    al = both("push", t=cps("a")) + both("push", t=cps("bb")) + both("load") + both("setfile")
    cfg = lambda **kw: gen.hcfg(peers=2, inc=True, share=True, **kw)
    pre = both("setfile")
    m.group([cfg(dup=d, maxf=n) for d in (True, False) for n in (1000, 3)], al, 5 if deep else 4, [pre, [h("write", t=cps("a\n#\n") + [98, -1, 10] + cps("bb\n"))] + pre])
    few = both("push", t=cps("a")) + both("push", t=cps("zz")) + both("load")
    for n, k in [(28, 0), (29, 28), (15, 29)]:
        evs = pre + [h("push", 0, t=cps("abcdefg"[i % 7])) for i in range(n)] + [h("push", 1, t=cps("opqrs"[i % 5])) for i in range(k)]
        m.group([cfg(ldup=False, maxf=f) for f in (1000, 5)], few, 5 if deep else 4, [evs])
    three = [h("push", p, t=cps("abc"[p])) for p in (0, 1, 2)] + [h("load", p) for p in (0, 1, 2)]
    m.group([dict(cfg(), peers=3)], three, 5 if deep else 4, [[h("setfile", p) for p in (0, 1, 2)]])
    return [m, schedules(deep)]


def schedules(deep):
    m = Races("schedules")
    h = gen.hev
    push, load = lambda t: h("push", t=cps(t)), h("load")
    progs = [[[push("x"), load], [push("yy"), load]], [[push("x")], [push("yy"), push("z")]], [[load, push("x")], [push("yy"), push("yy"), load]],
             [[push("x")], [push("yy")], [load, load]]]
    if deep:
        progs += [[[push("x"), push("w"), load], [push("yy"), push("z"), load]], [[push("x"), load], [push("yy"), load], [push("z"), load]],
                  [[push("#x"), push("")], [load, push("yy"), load]]]
    for prog in progs:
        pre = [h("setfile", p) for p in range(len(prog))]
        for n, k in [(0, 0), (29, 0), (28, 29), (29, 29)] + ([(28, 28)] if deep else []):
            before = [h("push", 0, t=cps("abcdefg"[i % 7])) for i in range(n)] + [h("push", 1, t=cps("opqrs"[i % 5])) for i in range(k)]
            for share in (True, False):
                for ldup in ((False, True) if n == 0 else (False,)):
                    for maxf in ((1000, 5) if n else (1000,)):
                        m.add(gen.hcfg(inc=True, share=share, ldup=ldup, maxf=maxf, dup=maxf == 5), pre + before, prog)
    return m


def p18(deep):
    m = Files("trees", "P18")

    def tree(names, cwd="", links=(), **kw):
        return dict({"tree": cps_all(names), "links": [cps_all(l) for l in links], "cwd": cps(cwd), "wd": "abs", "plain": False, "case": False}, **kw)
    t1 = ["a", "Ab", "a b", "ab/", "ab/x", "ab/x y", ".h", "é", "A.b"]
    t2 = ["d/", "d/a", "d/e f/", "d/e f/a", "a b/", "a b/c", "b"]
    m.group([tree(t1, **k) for k in ({}, {"case": True}, {"plain": True}, {"wd": "none"})] + [tree(t2, "d/"), tree(t2, "", [("l", "d"), ("m", "b"), ("n", "nosuch")])],
            "ab/. \\", 5 if deep else 4)
    m.group([tree(t1), tree(t2, "d/")], "ab./", 4 if deep else 3, ["%/", "./", "'", '"', "d/", "..", "ab/", "a\\ "])
    return [m]


def cps_all(l):
    return [cps(x) for x in l]


def p20(deep):
    return [WordLists("words", 8 if deep else 6, "a \\", 8 if deep else 6, 4 if deep else 3)] + ([WordLists("spaces", 5, "a \\\t世", 3, 1)] if deep else [])


MODELS = {n.upper(): f for n, f in list(globals().items()) if len(n) == 3 and n[0] == "p" and n[1:].isdigit()}


def of(prop, tier):
    return MODELS[prop](tier == "thorough") if prop in MODELS else []
