"""Random sessions larger than those of gen.py: long lines, many entries,
candidates, words, files, keys; counts beyond a hundred.

What the code does must not depend on how much of it there is; the sizes are
just beyond the round numbers at which a limit would be put.
"""
import gen
from gen import (BSP, DEL, DOWN, END, ENTER, ESC, FREE, HOME, LEFT, RIGHT, TAB_, UNI, UP, alt, bufev, ch, config, cps, ctrl, ev, hcfg, hev, key, keys,
                 read, rtext, session, somechar, typed)


def size(r, top=300):
    return r.choice([n for n in (17, 33, 51, 65, 101, 129, 201, 257, 300) if n <= top])


def text(r, n, **kw):
    out = []
    while len(out) < n:
        out += rtext(r, 20, **kw) + [32]
    return out[:n]


def entries(r, n, *special):
    """Many entries, the special ones mostly among the oldest."""
    h = [cps("x%d" % i) if r.random() < .8 else cps(r.choice(["foo", "ba", "q w"])) + cps(" %d" % i) for i in range(n)]
    for s in special:
        h.insert(r.choice([0, 0, 1, r.randint(0, n)]), cps(s))
    return h


def candidates(r, n):
    pre = cps(r.choice(["a", "foo", "", "ñ"]))
    l = [pre + cps("%d" % (i * 7 % 1009)) for i in range(n)]
    r.shuffle(l)
    return l


def count(r, n=None):
    """The digits of a count of any size."""
    return [ev("key", ch(c), n=FREE) for c in str(n or r.choice([size(r), 99, 100, 128, 255, 256, 1000]))]


def runs(r, pool, n, top=130):
    """Keys pressed again and again."""
    out = []
    while len(out) < n:
        out += [r.choice(pool)] * (size(r, top) if r.random() < .6 else r.randint(1, 3))
    return keys(out)


def p01(r):
    s = gen.p01(r)
    c = s["cfg"]
    if c["w"] < 5:
        c["w"] = 10
    k = r.random()
    if k < .4:
        c["init"] = text(r, size(r), nl=.02)
    elif k < .7 and not c["fn"]:
        c["hist"] = entries(r, size(r, 129), "foo bar", "a")
    else:
        c["cand"] = candidates(r, size(r, 65))
    # no text typed before what may repeat it some thousand times
    s["ev"] = runs(r, [UP, DOWN, LEFT, RIGHT, TAB_, BSP], 10, 65) + s["ev"] + runs(r, [UP, DOWN, LEFT, RIGHT, TAB_, ctrl("r"), BSP, ch("a"), ctrl("s")], 20, 65)
    return s


def p02(r):
    nl = r.choice([0, 0, .03])
    t = text(r, size(r), nl=nl)
    init = list(t)
    evs = [bufev("nop", q=gen.query(r, t))]
    for _ in range(r.randint(2, 6)):
        if r.random() < .4:
            x, s = r.randint(0, len(t)), text(r, size(r), nl=nl)
            evs.append(bufev("ins", x, 0, s))
            t = t[:x] + s + t[x:]
        (op, n, m, s), t = gen.one_edit(r, t, nl)
        evs.append(bufev(op, n, m, s, gen.query(r, t)))
        evs.append(bufev("nop", q=gen.query(r, t)))
    return {"kind": "buf", "cfg": {"init": init}, "ev": evs}


def p03(r):
    """Many edits or many in one group, all taken back and made again."""
    t = 3
    evs = []
    n = size(r)
    group = r.random() < .4
    if group:
        evs.append(bufev("sg"))
    for i in range(n):
        inner = not group and r.random() < .05
        evs += [bufev("sg")] if inner else []
        evs.append(bufev("ins", r.randint(0, t + i), 0, [97 + i % 26]))
        evs += [bufev("eg")] if inner else []
    if group:
        evs.append(bufev("eg"))
        evs.append(bufev("ins", 0, 0, cps("z")))
    back = r.choice([["undo"] * (n + 2), ["revert"], ["undo"] * (n // 2) + ["revert"]])
    if group:
        back = r.choice([["undo"] * 3, ["revert"]])
    evs += [bufev(o) for o in back]
    evs += [bufev("redo") for _ in range(3 if group else n + 2)]
    return {"kind": "buf", "cfg": {"init": cps("xyz")}, "ev": evs}


def p04(r):
    vi = r.random() < .6
    n = size(r)
    cfg = config(vi=vi, init=gen.line(r), hist=gen.rhist(r, 3), cmp=["r", "t", "ok", "c"])
    evs = keys([UP]) if r.random() < .3 else []
    if vi:
        evs += pick(r, [lambda: keys([ch(97 + i % 26) for i in range(n)] + [ESC]),
                        lambda: keys([ESC]) + count(r, min(n, 129)) + keys([ch("i"), ch("x"), ESC]),
                        lambda: typed(text(r, n)) + keys([ESC, ch("0")]) + count(r) + keys([r.choice([ch("~"), ch("x")])]),
                        lambda: typed(text(r, n)) + keys([ESC, ch("0")]) + count(r, n - 1) + keys([ch("r"), ch("z")]),
                        lambda: typed(text(r, n)) + keys([ESC, ch("0")] + [ch("x")] * n)])
        evs += keys([ch("u")] * r.choice([1, 2, 3, n + 2] if len(evs) > n + 20 or r.random() < .3 else [1, 2, 3]))
        evs += [ev("core", ctrl("r"))] * r.randint(0, 3)
    else:
        evs += typed(text(r, n)) + keys([ctrl("x")] * (n + 2)) + [ev("redo")] * r.choice([0, 3, n])
    return session(cfg, evs)


def pick(r, l):
    return r.choice(l)()


def p05(r):
    cfg = gen.divided(r, config(init=text(r, size(r), nl=.01)))
    evs = []
    for _ in range(r.randint(3, 6)):
        evs += runs(r, [alt("b"), alt("f"), LEFT, RIGHT, BSP, DEL, ctrl("w"), ch("a"), ch(" "), ctrl("b"), alt(127)], 3, 65)
        evs += keys([gen.pick(r, gen.EM_EDIT + gen.EM_MOVE)])
    return session(cfg, evs)


def counted(r, l):
    return (count(r) if r.random() < .7 else []) + keys(l)


def p06(r):
    cfg = config(vi=True, init=text(r, size(r), nl=.005), cmp=["r", "t", "c"])
    evs = keys([ESC] + r.choice([[], [ch("0")]]))
    for _ in range(r.randint(6, 14)):
        evs += counted(r, gen.vi_motion(r))
    return session(cfg, evs)


def p07(r):
    cfg = config(vi=True, init=text(r, size(r), nl=.005))
    evs = keys([ESC] + r.choice([[], [ch("0")], [ch("0")]]))
    for _ in range(r.randint(1, 4)):
        c = r.choice("dc")
        evs += pick(r, [lambda: counted(r, [ch("x")]), lambda: counted(r, [ch("~")]), lambda: counted(r, [ch("s")] + gen.plain_text(r) + [ESC]),
                        lambda: count(r, size(r, 129)) + keys([ch("r"), ch("z")]),
                        lambda: count(r, size(r, 129)) + keys([ch(r.choice("iaAI"))] + [ch(r.choice("ab "))] * r.randint(1, 2) + [ESC]),
                        lambda: keys([ch(r.choice("iaAI"))]) + typed(text(r, size(r))) + keys([ESC]),
                        lambda: counted(r, [ch(c)]) + counted(r, gen.vi_motion(r)) + keys((gen.plain_text(r) + [ESC]) if c == "c" else []),
                        lambda: keys([ch("0"), ch("w"), ch("b")])])
    return session(cfg, evs)


def p08(r):
    n = size(r, 201)
    cfg = config(vi=True, init=gen.line(r) if r.random() < .5 else text(r, size(r)))
    evs = keys([ESC])
    evs += pick(r, [lambda: keys([ch(r.choice("iaAI"))]) + typed(text(r, n)) + keys([ESC]),
                    lambda: keys([ch("c"), ch(r.choice("wbl"))]) + typed(text(r, n)) + keys([ESC]),
                    lambda: count(r, min(n, 65)) + keys([ch("a"), ch("x"), ESC]),
                    lambda: keys([ch("0")]) + count(r) + keys([ch(r.choice("x~"))]),
                    lambda: keys([ch("0"), ch("d")]) + count(r) + keys([ch(r.choice("lw"))])])
    evs += keys(r.choice([[], [ch("0")], [ch("b")]])) + keys([ch(".")]) + keys([ch("$")] + [ch(".")] * r.randint(0, 1))
    return session(cfg, evs)


def p09(r):
    vi = r.random() < .3
    cfg = config(vi=vi, init=cps(r.choice(["", "", "f", "foo", "b", "x1", "x"])), hist=entries(r, size(r), "foo", "a foo b", "bar"),
                 cmp=["r", "t", "c", "h", "hs"], want=["hs"])
    up, down = (ch("k"), ch("j")) if vi and r.random() < .5 else (UP, DOWN)
    evs = keys([ESC]) if vi else []
    n = size(r, 65) if r.random() < .5 else min(len(cfg["hist"]), 260) + 2
    evs += keys([up] * n)
    evs += keys(r.choice([[], [ch("x")], [BSP], [alt(">")], [alt("<")]] if not vi else [[], [ch("x")]]))
    evs += keys([down] * r.choice([3, n + 2]))
    return session(cfg, evs)


def p10(r):
    cfg = config(vi=r.random() < .15, w=70, hist=entries(r, size(r, 201), "foo", "a foo b", "bar"), cmp=["r", "t", "c", "h", "s", "scr"], want=["scr"])
    k = r.choice([ctrl("r"), ctrl("s")])
    evs = keys([k]) + typed(r.choice(["fo", "b", "x", "x1", "o", ""]))
    evs += keys([r.choice([k, k, ctrl("r"), ctrl("s"), UP, DOWN])] * r.choice([1, 12, size(r, 65)]))
    evs += typed(r.choice(["", "o", "1", " "])) + keys([k] * r.randint(0, 3)) + keys([r.choice([ENTER, ctrl("f"), LEFT, BSP])])
    return session(cfg, evs)


def p11(r):
    long = "make " + "a-target " * r.choice([1, 15, 30])
    cfg = config(vi=r.random() < .15, w=60, hist=entries(r, size(r), long, "foo bar", "bar"), cmp=["r", "t", "c", "s", "scr"], want=["scr"])
    evs = typed(r.choice(["m", "make", "foo", "ba", "b", "x1", "x"]))
    evs += keys(r.choice([[ctrl("f")], [RIGHT], [BSP, ctrl("f")], [ch("z"), BSP, RIGHT]]))
    return session(cfg, evs)


def p12(r):
    cand = candidates(r, size(r, 129))
    if r.random() < .3:
        cand = [text(r, size(r), style="words") for _ in range(r.choice([1, 2, 3]))]
        if r.random() < .6:
            cand = [cand[0] + c[:3] for c in cand]
    w = r.choice([60, 60, 20])
    cfg = config(vi=r.random() < .2, w=w, init=cps(r.choice(["", "a", "foo", "x foo", "q"])) if r.random() < .6 else text(r, size(r, 129)) + cps(" a"), cand=cand, call=r.random() < .3,
                 cmp=["r", "t", "c", "ar", "scr"], want=["ar", "scr"])
    n = min(len(cand) + 3, r.choice([3, 40, 140]))
    evs = keys([TAB_] * n) + keys([r.choice([BSP, ENTER, ch("z"), LEFT])])
    evs += keys([r.choice([TAB_, BSP, ctrl("w"), ctrl("x")]) for _ in range(3)])
    return session(cfg, evs)


def p13(r):
    vi = r.random() < .2
    w = r.choice([4, 6, 10, 20, 80, 130, 200, 300])
    n = min(size(r), 40 * w)
    if w >= 130:
        n = r.choice([n, w - 3, w, 2 * w + 5])
    uni = r.choice([0, 0, .3])
    cfg = config(vi=vi, w=w, pr=r.choice([cps("$ "), [], rtext(r, 2 * min(w, 80), uni=.2)]), init=text(r, n, uni=uni, nl=r.choice([0, .02])),
                 hist=[text(r, size(r), uni=uni)] if r.random() < .5 else [], cand=candidates(r, size(r, 65)) if r.random() < .3 else [], rows=[cps("top")] if r.random() < .5 else [],
                 cmp=["r", "t", "c", "scr"], want=["scr"])
    cfg["pr"] = [c for c in cfg["pr"] if c != 10]
    if cfg["hist"] and r.random() < .5:
        cfg["hist"] = [cfg["init"] + cfg["hist"][0][:100]]
    evs = []
    for _ in range(r.randint(4, 9)):
        evs += pick(r, [lambda: keys([HOME]), lambda: keys([END]), lambda: keys([UP]), lambda: keys([TAB_]), lambda: keys([BSP]), lambda: typed("a"), lambda: keys([ctrl("l")]),
                        lambda: [ev("ins", t=text(r, size(r, 101), uni=uni))], lambda: [ev("to", n=r.randint(0, n))], lambda: [ev("du", n=r.randint(0, n))], lambda: keys([ctrl("r")]),
                        lambda: keys([LEFT] * r.randint(1, 3))])
    if r.random() < .5:
        evs += keys([ENTER])
    return session(cfg, evs)


def p14(r):
    vi = r.random() < .3
    cfg = config(vi=vi, w=80, hist=entries(r, size(r, 65), "foo\\"), call=True, cmp=["r", "t", "used", "late"])
    long = [k["k"] for k in typed([c for c in text(r, size(r)) if c != 92])]
    k = r.choice([long + [ENTER], long + [LEFT] * 20 + [ENTER, ch("z")], [UP] * size(r, 65) + [ch("x"), ENTER], long + [BSP] * len(long) + [ctrl("d"), ENTER],
                  long + [ch("\\"), ENTER] + long[:20] + [ENTER], long])
    return gen.rlsession(cfg, [read(k, init=text(r, size(r)) if r.random() < .3 else []), read([ch("a"), UP, ENTER])])


def p15(r):
    n = size(r)
    cfg = hcfg(dup=r.random() < .5, maxb=r.choice([1000, n, n // 2, n - 1]))
    evs = [gen.asked(r, hev("push", t=cps("e%d" % (i // r.choice([1, 1, 2]))))) for i in range(n + 5)]
    evs += [gen.asked(r, hev("rmdup", t=cps("e3"))), gen.asked(r, hev("push", t=text(r, size(r), nl=.02)))]
    for e in evs:
        if r.random() < .8:
            e.update(x=-1, u=[])
        else:
            e["u"] = cps(r.choice(["e", "e1", "e10", "e2", ""]))
    return {"kind": "hist", "cfg": cfg, "ev": evs}


def longentry(r):
    return [c for c in text(r, r.choice([200, 300, 1025, 1100, 2049])) if c != 10]


def p16(r):
    cfg = hcfg(dup=r.random() < .6, inc=r.random() < .6, ldup=r.random() < .6, maxb=1000, maxf=r.choice([1000, 1000, 101, 50]))
    if r.random() < .5:
        # long entries
        f = [x for _ in range(r.randint(1, 4)) for x in r.choice([longentry(r), cps("a"), cps("b")]) + [10]]
        evs = [hev("write", t=f), hev("setfile")]
        for _ in range(r.randint(1, 4)):
            evs += [hev("push", t=r.choice([longentry(r), cps("c")])), r.choice([hev("nop"), hev("commit"), hev("load", n=r.randint(0, 1)), hev("loadfile")])]
        return {"kind": "hist", "cfg": cfg, "ev": evs}
    n = size(r)
    evs = [hev("write", t=[x for i in range(n) for x in cps("e%d\n" % (i % r.choice([n, 40])))]), hev("setfile")]
    evs += [hev("push", t=cps("p%d" % i)) for i in range(r.choice([3, 35, 65, 95]))]
    evs += [hev("commit"), hev("loadfile", n=r.randint(0, 1)), hev("push", t=cps("e1"))]
    return {"kind": "hist", "cfg": cfg, "ev": evs}


def p17(r):
    if r.random() < .5:
        n = size(r, 129)
        cfg = config(fn=True, share=True, inc=True, ldup=r.random() < .6, f=[[x for e in entries(r, n, "foo", "bar") for x in e + [10]]], cmp=["r", "t", "c", "h", "hs", "fl"], want=["hs"],
                     init=cps(r.choice(["", "", "f", "x1"])))
        evs = [ev("peer", t=longentry(r)[:300])] + keys([UP] * size(r, 33)) + [ev("peer", t=cps("foo 2"))] + keys([DOWN] * 40) + keys([UP, UP])
        return session(cfg, evs)
    cfg = hcfg(peers=3, dup=r.random() < .6, inc=True, share=True, ldup=r.random() < .35, maxf=r.choice([1000, 1000, 65]))
    evs = [hev("write", t=[x for i in range(size(r, 129)) for x in cps("e%d\n" % i)])] + [hev("setfile", p) for p in range(3)]
    for i in range(r.choice([40, 100])):
        p = r.randrange(3)
        evs.append(hev("push", p, t=r.choice([cps("p%d" % i), cps("e%d" % r.randint(0, 50)), text(r, 50, uni=0)])) if r.random() < .85 else hev("load", p, n=0))
    return {"kind": "hist", "cfg": cfg, "ev": evs}


def p18(r):
    n = size(r)
    pre = r.choice(["", "d/", "d e/"])
    tree = ([pre] if pre else []) + [pre + r.choice(["f%d", "F%d", "a %d"]) % i for i in range(n)]
    deep = "".join("s%d/" % i for i in range(12))
    tree += [deep[:i] for i in range(3, len(deep) + 1) if deep[i - 1] == "/"] + [deep + "leaf", "n" * 200, "l" * 100 + " " + "m" * 100]
    evs = [{"op": "c", "t": cps(t.replace(" ", "\\ "))} for t in [pre, pre + "f", pre + "F", pre + "a ", pre + "f1", deep, deep + "l", deep + "../", "n", "n" * 150, "l", "l" * 100 + " m"]]
    r.shuffle(evs)
    return {"kind": "fname", "cfg": {"tree": [cps(p) for p in tree], "links": [], "cwd": [], "wd": r.choice(["abs", "none"]), "plain": r.random() < .3, "case": r.random() < .5}, "ev": evs[:8]}


def p19(r):
    s = gen.p19(r)
    k = [ch(r.choice("ab ")) for _ in range(size(r, 101))] + [ENTER]
    s["ev"] = [read(k, fail=r.choice([r.randint(1, 20), r.randint(1, 9 * len(k))]), sticky=r.random() < .5, how=r.randint(0, gen.FAILURES - 1)), read([ch("a"), ENTER])]
    return s


def p20(r):
    if r.random() < .4:
        cfg = gen.divided(r, config(init=text(r, size(r)), cmp=["r", "q"], want=["q"]))
        return session(cfg, [ev("to", n=r.randint(0, 300)) for _ in range(12)] + keys([alt("b"), ch("a"), ch(" "), BSP]))
    t = [c if c != 10 else 32 for c in text(r, size(r), style=r.choice(["words", "runs", "punct"]))]
    ws, at = [], 0
    for _ in range(size(r, 65)):
        x = at + r.randint(0, 3)
        at = x + r.randint(1, 3)
        ws.append([x, at])
    return {"kind": "words", "cfg": {"x": 0}, "ev": [{"op": "w", "t": t, "n": r.randint(0, len(t)), "w": ws if r.random() < .7 else []} for _ in range(12)]
            + [{"op": "w", "t": [], "n": r.randint(0, at + 1), "w": ws} for _ in range(12)]}


def p21(r):
    s = gen.p21(r)
    c = s["cfg"]
    if r.random() < .6:
        c["init"] = text(r, size(r))
    if c["hook"]["on"] != "-" and c["hook"]["t"]:
        c["hook"]["t"] = text(r, size(r, 65))
    if r.random() < .5:
        c["hist"] = entries(r, size(r, 65), "foo")
    at = r.randint(0, len(s["ev"]))
    s["ev"][at:at] = runs(r, [LEFT, UP, DOWN, BSP, ch("b"), TAB_], 10, 33)
    return s


def p22(r):
    s = gen.p22(r)
    c = s["cfg"]
    c["w"] = r.choice([14, 60, 130, 200])
    c["init"] = text(r, size(r), nl=r.choice([0, .03]))
    if r.random() < .5:
        c["hist"] = [c["init"] + text(r, size(r, 101), nl=.03)]
    if r.random() < .4:
        c["pr"] = [x for x in rtext(r, 60) if x != 10]
    return s


def p23(r):
    hist = [cps("x ") + cps("w%d" % i) if r.random() < .9 else gen.entry(r) for i in range(size(r, 129))]
    if r.random() < .3:
        hist[-1] = text(r, size(r))
        hist[-1] += cps(" ") + [98] * size(r, 129)
    cfg = config(init=gen.line(r), hist=hist)
    return session(cfg, keys([alt(".")] * r.choice([3, len(hist) + 2])) + keys([r.choice([LEFT, ch("z"), BSP])] + [alt(".")] * 3))


def p24(r):
    evs = []
    s = gen.p24(r)
    while len(evs) < size(r, 129):
        evs += gen.p24(r)["ev"]
    s["ev"] = evs
    return s


LARGE = {n.upper(): f for n, f in list(globals().items()) if len(n) == 3 and n[0] == "p" and n[1:].isdigit()}
