"""Random sessions for the conformance checks, one profile per property.

A session is a JSON object: kind, cfg and a list of events (see
harness/src/sess.rs and spec/Session.tla).  Every random choice comes from the
one generator given.
"""

# --- texts ----------------------------------------------------------------
E_ACUTE, E_CAP, SZLIG, NTIL, IDOT = 233, 201, 223, 241, 304
SHI, EMOJI, COMB, NBSP, IDSP = 19990, 128512, 769, 160, 12288
WIDE = [SHI, EMOJI, IDSP]
UNI = [E_ACUTE, E_CAP, SZLIG, NTIL, IDOT, SHI, EMOJI, COMB, NBSP, IDSP]
UNI = 3 * UNI + [ord(c) for c in "дДσΣςＡａ𐐀𐐨ǅﬁ٣²한\u2009\u200b…«"]


def cps(s):
    return [ord(c) for c in s]


WORDS = ["foo", "bar", "baz", "foobar", "foo bar", "a", "b", "x1", "_ab", "ab.cd", "a-b", "(x)", "--", "q",
         "Foo", "hello world", "bar baz qux", "fo", "ls -l", "a  b", "a\\ b", "\\", "\\ ", "é", "niño", "世界".replace("界", "世"), "x=1"]


def rtext(r, maxlen=12, uni=0.25, nl=0.0, style=None):
    """A text of words, punctuation and some characters out of the ordinary."""
    n = r.randint(0, maxlen)
    out = []
    style = style or r.choice(["words", "words", "chars", "punct", "uni", "runs"])
    while len(out) < n:
        k = r.random()
        if style == "words":
            out += cps(r.choice(WORDS)) + [32]
        elif style == "chars":
            out.append(ord(r.choice("abcABC123 _.,")))
        elif style == "punct":
            out.append(ord(r.choice("ab. ,-/\\#'\"  ")) if r.random() < .8 else r.randint(33, 126))
        elif style == "runs":
            out += [ord(r.choice("ab .-"))] * r.randint(1, 4)
        else:
            out.append(r.choice(UNI + cps("ab C1. ")))
        if k < uni * 0.4:
            out.append(r.choice(UNI))
        if r.random() < nl:
            out.append(10)
    return out[:n]


# --- keys -----------------------------------------------------------------
def K(k, c=0):
    return {"k": k, "c": c}


def ch(c):
    return K("Char", ord(c) if isinstance(c, str) else c)


def ctrl(c):
    return K("Ctrl", ord(c))


def alt(c):
    return K("Alt", ord(c) if isinstance(c, str) else c)


ESC, UP, DOWN, LEFT, RIGHT = K("Esc"), K("Up"), K("Down"), K("Left"), K("Right")
HOME, END, BSP, DEL = K("Home"), K("End"), K("Backspace"), K("Delete")
ENTER, TAB_ = ch("\n"), ch("\t")
NOKEY = K("-")


def ev(op, k=None, n=0, t=None):
    return {"op": op, "k": k or NOKEY, "n": n, "t": t or []}


def key(k):
    return ev("key", k)


def keys(l):
    return [key(k) for k in l]


def typed(s):
    return [key(ch(c)) for c in (cps(s) if isinstance(s, str) else s)]


# --- configurations ---------------------------------------------------------
NOHOOK = {"on": "-", "k": NOKEY, "op": "-", "n": 0, "t": []}
NOWANT = {"q": False, "lg": False, "ar": False, "hs": False, "scr": False, "cl": False}


def config(**kw):
    c = {"vi": False, "w": 80, "pr": cps("$ "), "pre": [], "codes": False, "seq": 0, "pm": "-", "pn": [], "pi": [],
         "clo": False, "rows": [], "x0": 0, "init": [], "hist": [], "fn": False, "f": [], "dup": True, "inc": False,
         "share": False, "ldup": True, "maxb": 0, "maxf": 0, "wd": 0, "cand": [], "call": False, "hook": dict(NOHOOK),
         "short": 0, "want": dict(NOWANT), "cmp": ["r", "t", "c"]}
    want = kw.pop("want", None)
    c.update(kw)
    if want:
        c["want"] = dict(NOWANT, **{w: True for w in want})
    return c


FREE = 7  # marks digits of counts that may be as large as they like


def tame(evs):
    """Keep counts small: a line repeated thousands of times is no use."""
    out, run = [], 0
    for e in evs:
        digit = e["op"] in ("key", "core") and e["k"]["k"] == "Char" and 48 <= e["k"]["c"] <= 57
        if digit and e["n"] != FREE:
            if run * 10 + e["k"]["c"] - 48 > 40:
                continue
            run = run * 10 + e["k"]["c"] - 48
        elif not digit:
            run = 0
        out.append(e)
    return out


def session(cfg, evs):
    return {"kind": "ed", "cfg": cfg, "ev": tame(evs) if cfg["vi"] else evs}


def rhist(r, n=6, uni=0.15, nl=0.1, empties=0.1):
    """Entries that share beginnings and parts."""
    stems = ["fo", "foo", "foo bar", "foob", "bar", "bar foo", "x foo y", "ba", "b", "a b c", "ls -l", "x"]
    out = []
    for _ in range(r.randint(0, n)):
        k = r.random()
        if k < empties:
            e = []
        elif k < empties + 0.12:
            e = rtext(r, 10, uni)
        else:
            e = cps(r.choice(stems))
            if r.random() < uni:
                e.insert(r.randint(0, len(e)), r.choice(UNI))
            if r.random() < 0.4:
                e += cps(r.choice(["", " ", " x", "bar", " foo", " a  "]))
        if r.random() < nl:
            e = e + [10] + cps(r.choice(["", "bar", "x y", "foo"]))
        out.append(e)
    return out


def pick(r, weighted):
    tot = sum(w for w, _ in weighted)
    x = r.random() * tot
    for w, v in weighted:
        x -= w
        if x < 0:
            return v(r) if callable(v) else v
    v = weighted[-1][1]
    return v(r) if callable(v) else v


def somechar(r):
    k = r.random()
    return ch(r.choice("aabbcfxo  12.-_A\\") if k < 0.82 else r.randint(33, 126) if k < .88 else r.choice(UNI))


# --- key pools ---------------------------------------------------------------
EM_EDIT = [(8, somechar), (3, BSP), (1, ctrl("h")), (2, DEL), (2, ctrl("d")), (1, ctrl("u")), (1, ctrl("k")), (2, ctrl("w")),
           (2, alt(127))]
EM_MOVE = [(3, LEFT), (2, RIGHT), (2, ctrl("b")), (1, ctrl("f")), (2, ctrl("a")), (1, ctrl("e")), (1, HOME), (1, END),
           (4, alt("f")), (4, alt("b"))]
UNBOUND = ([K(k) for k in ("PageUp", "PageDown", "Insert", "BackTab", "Null")] + [K("F", i) for i in range(1, 13)]
           + [alt(c) for c in "acdeghijklmnopqstuvwxyzABDFRXZ0129 ,/?-_*~#"] + [ctrl(c) for c in "goqtvyz]_"])
VI_UNBOUND = [ch(c) for c in "pyPYJKLMHQRSUVXZGOoNn@#%&*()!\"'+-/:<=>?[\\]_`mqvz{|}"]


def digits(r):
    return [ch(c) for c in r.choice(["2", "3", "2", "4", "5", "9", "10", "12", "20"])]


def charsearch(r):
    return [ch(r.choice("ftFT")), somechar(r) if r.random() < 0.9 else r.choice([ESC, LEFT, DEL])]


def vi_motion(r):
    return pick(r, [(2, [ch("h")]), (2, [ch("l")]), (4, [ch("w")]), (2, [ch("W")]), (4, [ch("b")]), (2, [ch("B")]),
                    (4, [ch("e")]), (2, [ch("E")]), (3, [ch("g"), ch("e")]), (2, [ch("g"), ch("E")]),
                    (2, [ch("0")]), (1, [ch("^")]), (2, [ch("$")]), (7, charsearch), (3, [ch(";")]), (3, [ch(",")]),
                    (1, [LEFT]), (1, [RIGHT]), (1, [ch(" ")]), (1, [BSP]), (1, [HOME]), (1, [END]),
                    (0.5, lambda r: [ch("g"), r.choice([ch("g"), ESC, ch("x"), LEFT] + VI_UNBOUND)]),
                    (0.6, lambda r: [r.choice(VI_UNBOUND + UNBOUND)])])


def counted(r, l, p=0.35):
    return (digits(r) if r.random() < p else []) + l


def ins_text(r, n=5):
    out = []
    for _ in range(r.randint(0, n)):
        out.append(somechar(r) if r.random() < 0.85 else r.choice([BSP, DEL, BSP, ctrl("h"), LEFT, RIGHT, HOME, END, UP, DOWN, r.choice(UNBOUND)]))
    return out


def plain_text(r, n=4):
    return [somechar(r) if r.random() < 0.88 else r.choice([BSP, DEL]) for _ in range(r.randint(0, n))]


def vi_insert(r, moves=True):
    return counted(r, [ch(r.choice("iaAI"))], 0.3) + (ins_text(r) if moves else plain_text(r)) + [ESC]


def vi_op(r):
    k = r.random()
    op = r.choice("dc")
    cnt = digits(r) if r.random() < 0.3 else []
    if k < 0.12:
        body = [ch(op), ch(op)]
    elif k < 0.2:
        body = [ch(op), r.choice([ESC, ch("z"), DEL, ch("d" if op == "c" else "c"), UP, TAB_, r.choice(VI_UNBOUND), r.choice(UNBOUND)])]
        return cnt + body
    else:
        body = [ch(op)] + counted(r, vi_motion(r), 0.3)
    tail = (plain_text(r) + [ESC]) if op == "c" else []
    return cnt + body + tail


def vi_change(r, moves=False):
    return pick(r, [(6, vi_op), (2, lambda r: counted(r, [ch("x")])), (1, lambda r: counted(r, [DEL])),
                    (2, lambda r: counted(r, [ch("s")]) + plain_text(r) + [ESC]),
                    (1, lambda r: counted(r, [ch("D")])), (1, lambda r: counted(r, [ch("C")]) + plain_text(r) + [ESC]),
                    (3, lambda r: counted(r, [ch("r"), somechar(r) if r.random() < 0.9 else r.choice([ESC, LEFT])])),
                    (3, lambda r: counted(r, [ch("~")])), (4, lambda r: vi_insert(r, moves))])


def vi_start(r, text_in_cfg=True):
    """Leave insert mode somewhere in the line."""
    out = [ESC]
    for _ in range(r.randint(0, 2)):
        out += r.choice([[ch("0")], [ch("b")], [ch("h")], [ch("h")], [ch("w")], [ch("$")]])
    return out


def line(r, **kw):
    return rtext(r, r.choice([0, 1, 3, 8, 14, 20]), **kw)


def flat(r, n, f):
    out = []
    while len(out) < n:
        out += f(r)
    return out


# --- profiles ---------------------------------------------------------------
def anykey(r, vi):
    pool = [(5, somechar), (2, BSP), (1, DEL), (2, LEFT), (2, RIGHT), (2, UP), (2, DOWN), (1, HOME), (1, END), (2, TAB_),
            (1, ctrl("r")), (1, ctrl("s")), (1, ctrl("f")), (1, ctrl("l")), (1, ctrl("h")), (0.5, ENTER), (0.5, ctrl("d")),
            (0.1, ctrl("c")), (1, lambda r: r.choice(UNBOUND))]
    if vi:
        pool += [(4, ESC), (8, lambda r: ch(r.choice("iaAIsrdcDC.hlkjtTfF;,wWeEbBg0^$x~u123456789"))), (0.3, ctrl("["))]
    else:
        pool += [(1, ctrl(c)) for c in "aebfdpnukwx"] + [(1, alt(c)) for c in "<>fbr."] + [(1, alt(127))]
    return pick(r, pool)


def p01(r):
    vi = r.random() < 0.6
    pm = "I" if vi and r.random() < 0.4 else "-"
    cfg = config(vi=vi, w=r.choice([0, 1, 2, 3, 5, 10, 20, 80]), pr=r.choice([[], cps("$ "), cps("prompt> "), [SHI, 32], rtext(r, 15)]),
                 pre=r.choice([[], [], [cps("one")], [[], rtext(r, 20)]]), codes=r.random() < 0.2, seq=r.randint(0, 3), pm=pm,
                 **indicators(r), clo=r.random() < 0.4, init=line(r, nl=0.05), hist=rhist(r),
                 cand=[rtext(r, 6) for _ in range(r.randint(0, 5))] if r.random() < 0.6 else [], call=r.random() < 0.5,
                 cmp=["safe"])
    if r.random() < 0.15:
        cfg.update(fn=True, share=True, inc=True, f=[[c for e in cfg["hist"] for c in e + [10]]])
    evs = []
    for _ in range(r.randint(4, 30)):
        k = r.random()
        if vi and k < 0.25:
            evs += keys(pick(r, [(3, vi_op), (2, lambda r: vi_change(r, True)), (3, lambda r: counted(r, vi_motion(r))),
                                 (1, lambda r: counted(r, [ch(".")]))]))
        elif k < 0.30:
            evs.append(r.choice([ev("db"), ev("da"), ev("dab"), ev("daa"), ev("left", n=r.randint(0, 9)), ev("right", n=r.randint(0, 9)),
                                 ev("to", n=r.randint(0, 30)), ev("du", n=r.randint(0, 30)), ev("dui", n=r.randint(0, 30)),
                                 ev("dw", n=0), ev("dw", n=1), ev("undo"), ev("redo"), ev("revert"), ev("accept"), ev("skip"),
                                 ev("clear"), ev("oldest"), ev("newest"), ev("complete"), ev("ins", t=rtext(r, 6)), ev("start"), ev("end"),
                                 ev("trunc", n=r.randint(0, 6)), ev("bins", t=rtext(r, 4)), ev("hpush", t=rtext(r, 6)), ev("revall"), ev("vimode", n=r.randint(0, 1)),
                                 ev("take"), ev("newline"), ev("width", n=r.choice([0, 1, 2, 7, 33, 65535])), ev("search", n=r.randint(0, 1))]))
        elif k < 0.32 and cfg["fn"]:
            evs.append(ev("peer", t=cps("x")))
        elif k < 0.34 and vi:
            # counts far beyond any line, on commands that only move or delete
            evs += keys([ESC]) + [ev("key", ch(c), n=FREE) for c in r.choice(["99999", "30000", "4294967296", "99999999999999999999999"])]
            if r.random() < .3:
                # an operator with a count of its own
                op = r.choice("dc")
                evs += keys([ch(op)]) + [ev("key", ch(c), n=FREE) for c in r.choice(["70000", "99999999999", "65536"])] + keys([ch(r.choice("hlwbWBeE"))])
                # a text repeated so many times is no use
                evs += keys([ESC]) if op == "c" else []
                continue
            evs += keys(r.choice([[ch(c)] for c in "hlwWbBeExjk"] + [[ch("d"), ch("w")], [ch("g"), ch("e")], [ch("f"), ch("a")], [ch("c"), ch("l"), ESC], [ch("r"), ch("a")], [ch("~")], [ch("u")]]))
        else:
            evs.append(key(anykey(r, vi)))
    return session(cfg, evs)


def p04(r):
    vi = r.random() < 0.6
    cfg = config(vi=vi, init=line(r), hist=rhist(r, 4) if r.random() < 0.7 else [], cmp=["r", "t", "ok", "c"])
    evs = []
    if vi:
        evs += keys(plain_text(r) + vi_start(r))
        for _ in range(r.randint(2, 7)):
            evs += pick(r, [(6, lambda r: keys(vi_change(r, True))), (6, lambda r: keys(counted(r, [ch("u")]))),
                            (2, lambda r: (keys(digits(r)) if r.random() < .5 else []) + [ev("core", ctrl("r"))]), (2, lambda r: keys(counted(r, vi_motion(r), .2))),
                            (2, lambda r: keys([r.choice([UP, DOWN, ch("j"), ch("k")])])), (1, lambda r: keys(counted(r, [ch(".")]))),
                            (2, lambda r: [ev(r.choice(["undo", "redo", "revert"]))]),
                            (1, lambda r: keys([ch("i")] + plain_text(r) + [r.choice([UP, DOWN])] + plain_text(r) + [ESC]))])
        evs += keys([ch("u")] * r.randint(1, 12))
    else:
        for _ in range(r.randint(4, 16)):
            evs += pick(r, [(10, lambda r: keys([pick(r, EM_EDIT)])), (3, lambda r: keys([pick(r, EM_MOVE)])),
                            (7, lambda r: keys([ctrl("x")])), (1, lambda r: keys([alt("r")])), (2, lambda r: [ev("redo")]),
                            (3, lambda r: keys([r.choice([UP, DOWN])])), (0.6, lambda r: keys([ctrl("f")])), (.3, lambda r: keys([alt("<")]))])
        evs += keys([ctrl("x")] * r.randint(1, 12))
        if r.random() < 0.5:
            evs += [ev("redo")] * r.randint(1, 6)
    return session(cfg, evs)


def divided(r, cfg):
    """Now and then the application divides words in its own way."""
    if r.random() < 0.25:
        cfg["wd"] = r.choice([1, 2])
        if cfg["wd"] == 1:
            cfg["init"] = [44 if c in (32, 46) and r.random() < .7 else c for c in cfg["init"]]
    return cfg


def p05(r):
    cfg = divided(r, config(init=line(r, nl=0.03), hist=rhist(r, 2) if r.random() < 0.3 else []))
    evs = []
    for _ in range(r.randint(4, 22)):
        k = ch(r.choice(",. -")) if cfg["wd"] and r.random() < .12 else pick(r, EM_EDIT + EM_MOVE + [(2, lambda r: r.choice(UNBOUND)), (.7, ctrl("l")), (.2, UP), (.2, DOWN)])
        evs.append(key(k))
    return session(cfg, evs)


def p06(r):
    cfg = config(vi=True, init=line(r, nl=0.02), cmp=["r", "t", "c"])
    evs = keys(vi_start(r))
    for _ in range(r.randint(4, 16)):
        evs += keys(counted(r, vi_motion(r)))
    return session(cfg, evs)


def p07(r):
    cfg = config(vi=True, init=line(r, nl=0.02))
    evs = keys(vi_start(r)) if r.random() < 0.85 else keys(ins_text(r) + [ESC])
    for _ in range(r.randint(2, 8)):
        evs += keys(pick(r, [(8, lambda r: vi_change(r, True)), (3, lambda r: counted(r, vi_motion(r))), (.5, [ESC]),
                             (.7, lambda r: digits(r) + [r.choice([ESC, ctrl("g"), K("PageUp"), ch("z"), HOME, END])])]))
    return session(cfg, evs)


def p08(r):
    cfg = config(vi=True, init=line(r))
    evs = keys(plain_text(r) + vi_start(r))
    for _ in range(r.randint(1, 4)):
        evs += keys(vi_change(r, r.random() < 0.3))
        for _ in range(r.randint(0, 2)):
            evs += keys(pick(r, [(4, lambda r: counted(r, vi_motion(r), .2)), (1, [ch("u")]), (.4, [ch("i"), ESC])]))
        evs += keys(counted(r, [ch(".")], .3))
        if r.random() < 0.4:
            evs += keys(counted(r, vi_motion(r), .1) + [ch(".")])
    return session(cfg, evs)


def p09(r):
    vi = r.random() < 0.4
    cfg = config(vi=vi, init=line(r) if r.random() < .2 else r.choice([[], [], cps("f"), cps("fo"), cps("b"), cps("foo")]),
                 hist=rhist(r, 7), cmp=["r", "t", "c", "h", "hs"], want=["hs"])
    evs = []
    navs = [(8, UP), (6, DOWN)]
    if vi:
        evs += keys([ESC]) if r.random() < .7 else []
        nav = lambda r: keys([r.choice([UP, UP, DOWN, ch("k"), ch("k"), ch("j")])])
        edit = lambda r: keys(pick(r, [(3, lambda r: [ch("a"), somechar(r), ESC]), (2, [ch("x")]), (2, [ch("u")]), (1, [ESC]), (1, [ch("d"), ch("d")]),
                                       (1, [ch("d"), ch("b")]), (1, [ch("i")])]))
    else:
        nav = lambda r: keys([pick(r, navs + [(2, ctrl("p")), (2, ctrl("n")), (1, alt("<")), (1, alt(">"))])])
        edit = lambda r: keys([pick(r, [(4, somechar), (2, BSP), (1, ctrl("x")), (1, ctrl("u")), (1, ctrl("w")), (1, alt("r")), (1, ch("f")), (1, ch("b"))])])
    for _ in range(r.randint(4, 20)):
        evs += nav(r) if r.random() < .72 else edit(r)
        if r.random() < .03:
            evs.append(r.choice([ev("revall"), ev("hpush", t=entry(r)), ev("take")]))
    if r.random() < .25:
        evs += keys([DOWN] * r.randint(3, 9))
    return session(cfg, evs)


def p10(r):
    vi = r.random() < 0.2
    cfg = config(vi=vi, w=70, init=r.choice([[], [], cps("f"), cps("foo")]) if r.random() < .6 else line(r), hist=rhist(r, 8, nl=0.05),
                 cmp=["r", "t", "c", "h", "s", "scr"], want=["scr"])
    evs = []
    for _ in range(r.randint(0, 3)):
        evs += keys([r.choice([UP, DOWN, somechar(r), LEFT])])
    sk = lambda r: keys([r.choice([ctrl("r"), ctrl("r"), ctrl("s"), UP, DOWN])])
    evs += keys([r.choice([ctrl("r"), ctrl("s")])])
    for _ in range(r.randint(2, 14)):
        evs += pick(r, [(5, sk), (6, lambda r: typed(r.choice(["f", "o", "b", "a", " ", "x", "fo"]))), (3, lambda r: keys([BSP])),
                        (1, lambda r: keys([LEFT])), (1, lambda r: keys([r.choice([ctrl("f"), RIGHT])])), (.5, lambda r: keys([ctrl("l")])),
                        (.5, lambda r: keys([r.choice([HOME, END, DEL])])), (.3, lambda r: keys([ESC])),
                        (.3, lambda r: keys([alt("<"), alt(">")][:r.randint(1, 2)]))])
    if r.random() < .4:
        evs += keys([ENTER])
    return session(cfg, evs)


def p11(r):
    vi = r.random() < 0.2
    cfg = config(vi=vi, w=60, init=r.choice([[], cps("f"), cps("fo"), cps("b"), cps("foo ")]), hist=rhist(r, 7, nl=.05),
                 cmp=["r", "t", "c", "s", "scr"], want=["scr"])
    evs = []
    for _ in range(r.randint(3, 14)):
        evs += pick(r, [(8, lambda r: typed(r.choice(["f", "o", "fo", "b", "a", " ", "r", "x"]))), (3, lambda r: keys([BSP])),
                        (3, lambda r: keys([ctrl("f")])), (3, lambda r: keys([RIGHT])), (2, lambda r: keys([LEFT])), (1, lambda r: keys([ctrl("e")])),
                        (1, lambda r: keys([r.choice([UP, DOWN])])), (.5, lambda r: keys([ctrl("u")])), (1, lambda r: keys([ESC]) if vi else keys([ctrl("x")])),
                        (.4, lambda r: keys([ctrl("k")])), (.4, lambda r: [ev("accept")]),
                        (.4, lambda r: keys([r.choice([UP, DOWN])]) + [ev(r.choice(["undo", "redo", "revert"]))])])
    if r.random() < .4:
        evs += keys([ENTER])
    return session(cfg, evs)


CANDS = [["foo", "foobar", "foobaz"], ["foo"], ["foo", "bar"], ["foo", "foo", "fob"], ["a", "b", "ab", "abc"], ["foo bar", "foo baz"],
         ["x"], [], ["世a", "世b"], ["ñu", "ña", "ñ"], ["a\\ b", "a\\ c"], ["b", "a", "c", "a"], ["foobar", "foo"], ["", "a"],
         ["étude", "étage"], ["世界a".replace("界", "世"), "世世b"], ["ñoñ", "ñoa", "x"], ["𝄞ab".replace("𝄞", "😀"), "😀ac"]]


def p12(r):
    vi = r.random() < 0.3
    cand = [cps(c) for c in r.choice(CANDS)]
    if r.random() < .2:
        cand = [rtext(r, 5, style=r.choice(["chars", "uni"])) for _ in range(r.randint(1, 6))]
    cfg = config(vi=vi, w=60, init=r.choice([[], cps("f"), cps("fo"), cps("x fo"), cps("foo bar"), cps("a"), cps("a\\ "), cps("世"), cps("ñ b"), cps("é"), cps("b ñ"), cps("😀"), cps("a ét")]) if r.random() < .75 else line(r),
                 cand=cand, call=r.random() < .35, cmp=["r", "t", "c", "ar", "scr"], want=["ar", "scr"])
    divided(r, cfg)
    evs = []
    if vi and r.random() < .6:
        evs += keys(vi_start(r))
    for _ in range(r.randint(3, 14)):
        evs += pick(r, [(9, lambda r: keys([TAB_])), (2, lambda r: typed(r.choice(["f", "o", "a", " ", "x", "b"]))), (2, lambda r: keys([LEFT])),
                        (1, lambda r: keys([BSP])), (1, lambda r: keys([r.choice([HOME, END, RIGHT, alt("b")])])), (1, lambda r: keys([ENTER])),
                        (.5, lambda r: [ev("complete")]), (.5, lambda r: [ev("skip")]), (.5, lambda r: keys([ctrl("w")])), (.5 if vi else 0, lambda r: keys([ESC])),
                        (.3, lambda r: [ev("to", n=r.randint(0, 8))]), (.3, lambda r: keys([ctrl("x")]))])
    return session(cfg, evs)


def p13(r):
    vi = r.random() < 0.35
    pm = "I" if vi and r.random() < .5 else "-"
    w = r.choice([4, 6, 8, 10, 12, 16, 24])
    pr = r.choice([[], cps("$ "), cps(">"), [SHI, 32], cps("abc> "), cps("p"), rtext(r, w + 2, uni=.3), rtext(r, 3 * w, uni=.3)])
    uni = r.choice([0, 0, .3])
    cfg = config(vi=vi, w=w, pr=[c for c in pr if c != 10], pre=r.choice([[], [], [], [cps("up")], [cps("one"), cps("two")]]), pm=pm,
                 **indicators(r), init=rtext(r, r.choice([0, 3, w, 2 * w, 3 * w]), uni=uni, nl=r.choice([0, 0, .1])),
                 hist=rhist(r, 4, uni=uni, nl=.2) if r.random() < .7 else [],
                 rows=r.choice([[], [cps("top")], [cps("a"), cps("bb")]]), x0=r.choice([0, 0, 0, 1, 3]), short=r.choice([0, 0, 1, 3]),
                 cand=[c for c in (rtext(r, r.choice([3, 8, w + 2]), uni=uni) for _ in range(r.randint(0, 7)))] if r.random() < .4 else [],
                 call=r.random() < .5, codes=r.random() < .2, seq=r.randint(0, 3), clo=r.random() < .2,
                 cmp=["r", "t", "c", "scr"], want=["scr"])
    if r.random() < .4:
        # a suggestion for the line there is
        cfg["hist"] = cfg["hist"] + [cfg["init"] + rtext(r, r.choice([1, 4, w, 2 * w]), uni=uni, nl=r.choice([0, 0, .1]))]
    # rows above the prompt must fit
    cfg["rows"] = [t[:w - 1] for t in cfg["rows"]]
    cfg["pre"] = [t[:w - 1] for t in cfg["pre"]]
    cfg["x0"] = min(cfg["x0"], w - 2)
    evs = []
    for _ in range(r.randint(3, 20)):
        evs += pick(r, [(10, lambda r: keys([somechar(r)])), (1, lambda r: typed([r.choice(WIDE)])), (2, lambda r: keys([BSP])), (3, lambda r: keys([LEFT])),
                        (2, lambda r: keys([RIGHT])), (2, lambda r: keys([r.choice([HOME, END])])), (2, lambda r: keys([r.choice([UP, DOWN])])),
                        (.7, lambda r: keys([r.choice([ctrl("r"), ctrl("s")])])), (.7, lambda r: keys([TAB_])), (.5, lambda r: keys([ctrl("l")])),
                        (.4, lambda r: typed("\\") + keys([ENTER])), (.6, lambda r: [ev("ins", t=rtext(r, w, uni=uni, nl=.05))]),
                        (.6, lambda r: [ev("to", n=r.randint(0, 2 * w))]), (.3, lambda r: [ev("prompt", n=r.randint(0, 1), t=rtext(r, 5))]),
                        (.5, lambda r: keys([ctrl("u") if not vi else ESC])), (.7 if vi else 0, lambda r: keys([ESC])), (.5 if vi else 0, lambda r: keys([ch("i")])), (.2, lambda r: keys([ctrl("f")]))])
    if r.random() < .6:
        evs += keys([r.choice([ENTER, ENTER, ctrl("c"), ctrl("d")])])
    return session(cfg, evs)


def p21(r):
    vi = r.random() < 0.4
    hk = r.choice(["B", "A", "C"])
    hook = {"on": hk, "k": r.choice([ch("x"), ch("a"), LEFT, TAB_, UP, BSP, ch("d"), ESC, ctrl("h"), ENTER, ctrl("l")]), "op": r.choice(["trunc", "trunc", "bins", "hpush", "noeol", "ins", "left", "right", "start", "end", "db", "daa", "to", "dw", "undo", "up", "skip", "prompt", "display", "take", "search", "revert", "redo", "oldest", "newest", "down", "accept", "clear", "da", "du", "dui", "dab"]),
            "n": r.randint(0, 3), "t": rtext(r, 3, uni=.1)}
    if hook["op"] == "ins" and r.random() < .3:
        hook["t"] = cps("ab")
    cfg = config(vi=vi, init=line(r), hist=rhist(r, 4), cand=[cps(c) for c in r.choice(CANDS)], call=r.random() < .5,
                 hook=hook if r.random() < .7 else dict(NOHOOK), cmp=["r", "t", "c", "lg", "ar"], want=["lg", "ar"])
    evs = []
    for _ in range(r.randint(3, 14)):
        evs += keys([pick(r, [(4, somechar), (3, hook["k"]), (2, TAB_), (1, LEFT), (1, RIGHT), (1, UP), (1, DOWN), (1, BSP), (1, ctrl("h")), (.6, ENTER),
                              (.6, ctrl("r")), (.6, ctrl("s")), (.6, ctrl("f")), (.5, ctrl("d")), (.2, ctrl("c")), (.6, lambda r: r.choice(UNBOUND)), (1 if vi else 0, ESC),
                              (2 if vi else 0, lambda r: ch(r.choice("dwbixr.3~;"))), (.5, ctrl("l"))])])
        if r.random() < .05:
            evs.append(ev("complete"))
    return session(cfg, evs)


def p22(r):
    vi = r.random() < 0.2
    w = r.choice([10, 14, 20, 60])
    cfg = config(vi=vi, w=w, pr=r.choice([cps("$ "), cps("ab>"), []]), init=r.choice([[], cps("f"), cps("fo")]) if r.random() < .6 else line(r, nl=.1), hist=rhist(r, 6, nl=.3),
                 codes=r.random() < .7, seq=r.randint(0, 3), clo=r.random() < .85, cmp=["r", "t", "c", "scr", "att", "cl"], want=["scr", "cl"],
                 cand=[cps(c) for c in r.choice(CANDS)] if r.random() < .2 else [], call=True)
    evs = []
    for _ in range(r.randint(3, 12)):
        evs += pick(r, [(6, lambda r: typed(r.choice(["f", "o", "fo", "b", "a", " ", "r", "x", "é"]))), (2, lambda r: keys([BSP])), (1, lambda r: keys([ctrl("f")])),
                        (1, lambda r: keys([LEFT])), (1, lambda r: keys([r.choice([UP, DOWN])])), (1, lambda r: keys([r.choice([ctrl("r"), ctrl("s")])])),
                        (1, lambda r: keys([TAB_])), (.5, lambda r: typed("\\") + keys([ENTER])), (.5, lambda r: keys([RIGHT])), (.3, lambda r: keys([ctrl("u")]))])
    if r.random() < .5:
        evs += keys([ENTER])
    return session(cfg, evs)


def p23(r):
    hist = rhist(r, 6, uni=.3, nl=.05, empties=.12)
    cfg = config(init=line(r), hist=hist)
    evs = []
    for _ in range(r.randint(1, 5)):
        evs += keys([alt(".")] * r.randint(1, 5))
        for _ in range(r.randint(0, 3)):
            evs += keys([pick(r, [(3, somechar), (3, LEFT), (1, RIGHT), (2, UP), (1, DOWN), (2, BSP), (1, HOME), (1, END), (1, ctrl("x")),
                                  (1, ctrl("w")), (1, alt("b")), (.5, alt("<")), (.3, ctrl("u")), (.3, lambda r: r.choice(UNBOUND)), (.4, alt("r"))])])
        if r.random() < .3:
            evs.append(ev("to", n=r.randint(0, 10)))
    if r.random() < .3:
        evs += keys([alt(".")] * 8)
    return session(cfg, evs)


# What shows the mode: (normal, insert).
INDICATORS = [("[N]", "[I]"), ("[N] ", "[I] "), ("NORM ", "I"), ("", "+"), ("n", ""), (":", "+"), (" ", "  "), (" n", "  i "), ("世 ", "é"), ("ａ", "A"), ("N\u3000", "I\u00a0"),
              ("x" * 12, "I"), ("I", "I ")]


def indicators(r):
    n, i = r.choice(INDICATORS)
    return dict(pn=cps(n), pi=cps(i))


def p24(r):
    cfg = config(vi=True, w=80, init=line(r)[:10], hist=rhist(r, 4), pm="I", **indicators(r), pr=r.choice([[], cps("$ "), cps("$"), cps(" >")]), codes=r.random() < .2, seq=r.randint(0, 3),
                 cmp=["ind"], want=["scr"])
    evs = keys(ins_text(r, 3)) if r.random() < .4 else []
    for _ in range(r.randint(3, 12)):
        evs += pick(r, [(3, lambda r: keys([ESC])), (3, lambda r: keys([ch(r.choice("iaAIsC"))])), (2, lambda r: keys(vi_op(r))), (3, lambda r: keys([ch(r.choice("dcrgfFtT"))])),
                        (2, lambda r: keys(vi_change(r, True))), (2, lambda r: keys(counted(r, vi_motion(r)))), (2, lambda r: keys([somechar(r)])), (1, lambda r: keys([ch(".")])),
                        (1, lambda r: [ev("prompt", n=r.randint(0, 1), t=rtext(r, 4))]), (1, lambda r: keys([r.choice([UP, DOWN, LEFT, ctrl("l"), ctrl("r"), ctrl("s"), ctrl("r"), TAB_, BSP, DEL])])), (.3, lambda r: keys([ctrl("[")])),
                        (.5, lambda r: [ev("display")])])
    return session(cfg, evs)


PROFILES = {n.upper(): f for n, f in list(globals().items()) if len(n) == 3 and n[0] == "p" and n[1:].isdigit()}


# --- reading lines ------------------------------------------------------------
FAILURES = 9   # kinds of errors the terminal may fail with


def read(keylist, init=None, viainit=False, fail=0, sticky=False, push=True, how=0):
    return {"op": "read", "keys": keylist, "init": init or [], "viainit": viainit, "fail": fail, "sticky": sticky, "push": push, "how": how}


def rlsession(cfg, evs):
    return {"kind": "rl", "cfg": cfg, "ev": evs}


def tame_keys(l):
    """As tame(), for keys."""
    return [e["k"] for e in tame(keys(l))]


def rl_keys(r, vi, ends=True):
    out = []
    if r.random() < .25:
        out += cps_keys(r.choice(["foo", "ls -l", "a\\", "x\\ y"]))
    for _ in range(r.randint(0, 12)):
        out.append(anykey(r, vi))
        k = r.random()
        if k < .05:
            out += [ch("\\"), ENTER]
        elif k < .09:
            out += [r.choice([ctrl("r"), ctrl("s")]), somechar(r)]
        elif k < .14:
            out += [UP] * r.randint(1, 3)
        elif k < .17:
            out += [TAB_] * r.randint(1, 3)
        elif k < .2:
            out += [r.choice([ch("\\"), LEFT]), ENTER]
    if ends:
        out += r.choice([[ENTER], [ENTER], [ENTER], [ENTER, ENTER], [ctrl("c")], [ctrl("d")], [ctrl("u"), ctrl("d")], [], [ch("\\")],
                         [ch("\\"), ENTER, ENTER], [ENTER, ch("x"), ENTER]])
    if r.random() < .4:
        # what follows the end stays unread
        out += [somechar(r), r.choice([ENTER, UP, ch("z")])]
    return tame_keys(out) if vi else out


def cps_keys(s):
    return [ch(c) for c in s]


def p14(r):
    vi = r.random() < 0.45
    cfg = config(vi=vi, w=r.choice([20, 80, 80]), init=[], hist=rhist(r, 5), cand=[cps(c) for c in r.choice(CANDS)] if r.random() < .5 else [],
                 call=r.random() < .5, dup=r.random() < .7, cmp=["r", "t", "used", "late"], pr=r.choice([[], cps("$ ")]))
    cfg["fn"] = False
    return rlsession(cfg, [read(rl_keys(r, vi), init=line(r, nl=.05) if r.random() < .4 else [], viainit=r.random() < .3) for _ in range(r.randint(1, 4))])


def p19(r):
    vi = r.random() < 0.45
    cfg = config(vi=vi, w=r.choice([10, 20, 80]), hist=rhist(r, 5), cand=[cps(c) for c in r.choice(CANDS)] if r.random() < .5 else [],
                 call=r.random() < .5, cmp=["r", "t", "used", "late", "hs", "fl"], pr=r.choice([[], cps("$ "), cps("long prompt> ")]),
                 pre=r.choice([[], [], [cps("one")]]), pm="I" if vi and r.random() < .3 else "-", **indicators(r), clo=r.random() < .2)
    if r.random() < .4:
        cfg.update(fn=True, inc=r.random() < .7, f=[[c for e in cfg["hist"] if 10 not in e for c in e + [10]]], hist=[])
    evs = []
    for _ in range(r.randint(1, 3)):
        k = rl_keys(r, vi)
        fail = 0
        if r.random() < .8:
            fail = r.randint(1, 12) if r.random() < .35 else r.randint(1, 12 + 9 * len(k))
        evs.append(read(k, init=line(r) if r.random() < .3 else [], viainit=r.random() < .3, fail=fail, sticky=r.random() < .5, how=r.randint(0, FAILURES - 1)))
    evs.append(read(rl_keys(r, vi)))
    return rlsession(cfg, evs)


# --- buffers ------------------------------------------------------------------
def bufev(op, n=0, m=0, t=None, q=None):
    e = {"op": op, "n": n, "m": m, "t": t or [], "q": q is not None, "x": 0, "y": 0, "u": []}
    if q:
        e.update(x=q[0], y=q[1], u=q[2])
    return e


def query(r, text):
    n = len(text)
    x, y = sorted((r.randint(0, n), r.randint(0, n)))
    k = r.random()
    if k < .35:
        u = text[:r.randint(0, n)]
    elif k < .7:
        u = text[x:y]
    elif k < .8:
        u = list(text)
    elif k < .9 and n:
        u = list(text)
        u[r.randrange(n)] = ord("z")
        u = u[:r.randint(1, n)]
    else:
        u = rtext(r, 4, nl=.1)
    return [x, y, u]


class Sim:
    """The length of a buffer's text through edits, undo and redo (texts are
    only needed to choose positions that are in range)."""

    def __init__(self, t):
        self.t, self.a, self.u = list(t), [], []

    def do(self, x, y, new):
        self.a.append((x, self.t[x:y], list(new)))
        self.t[x:y] = new
        self.u = []


def balanced(r, n, depth=0):
    """Edits with balanced groups."""
    out = []
    for _ in range(n):
        k = r.random()
        if k < .22 and depth < 3:
            out += ["sg"] + balanced(r, r.randint(0, 3), depth + 1) + ["eg"]
        else:
            out.append("edit")
    return out


def one_edit(r, t, nl, ascii_only=False):
    """[op, n, m, text], what it makes of t."""
    n = len(t)
    k = r.random()
    new = (lambda m: [ord(r.choice("abc")) for _ in range(r.randint(0, m))]) if ascii_only else (lambda m: rtext(r, m, nl=nl))
    if k < .5:
        x = r.randint(0, n)
        s = new(4)
        return ["ins", x, 0, s], t[:x] + s + t[x:]
    if k < .78:
        x, y = sorted((r.randint(0, n), r.randint(0, n)))
        return ["rem", x, y, []], t[:x] + t[y:]
    if k < .86:
        x = r.randint(0, n)
        return ["trunc", x, 0, []], t[:x]
    if k < .93:
        s = new(8)
        return ["copy", 0, 0, s], s
    s = t[:] if r.random() < .5 else [ord("q")] * n
    s = s + new(4)
    return ["app", 0, 0, s], t + s[n:]


def p02(r):
    nl = r.choice([0, 0, .15])
    t = rtext(r, r.choice([0, 4, 12, 30]), nl=nl)
    init = list(t)
    evs = []
    for _ in range(r.randint(2, 14)):
        if r.random() < .08:
            n = r.randint(0, 4)
            t = rtext(r, 15, nl=nl) if r.random() < .9 else cps("a" * 9)
            evs.append(bufev("from", n, 0, t))
            t = t if n < 3 else []
        elif r.random() < .05:
            evs.append(bufev("clone"))
        else:
            (op, n, m, s), t = one_edit(r, t, nl)
            evs.append(bufev(op, n, m, s, query(r, t)))
        for _ in range(r.randint(0, 2)):
            evs.append(bufev("nop", q=query(r, t)))
    return {"kind": "buf", "cfg": {"init": init}, "ev": evs}


def p03(r):
    t = [ord(r.choice("xyz")) for _ in range(r.randint(0, 4))]
    init = list(t)
    # the log, to know the text undo and redo lead to
    log, undone, evs = [], [], []

    def act(a):
        nonlocal t
        x, old, new = a
        t = t[:x] + new + t[x + len(old):]

    def run(seq):
        nonlocal t, undone
        for o in seq:
            if o in ("sg", "eg"):
                evs.append(bufev(o))
                log.append(o)
            else:
                (op, n, m, s), t2 = one_edit(r, t, 0, True)
                evs.append(bufev(op, n, m, s))
                if op == "ins":
                    log.append((n, [], s))
                elif op == "rem":
                    log.append((n, t[n:m], []))
                elif op == "trunc":
                    log.append((n, t[n:], []))
                elif op == "app":
                    log.append((len(t), [], s[len(t):]))
                else:
                    log.append((0, t[:], []))
                    log.append((0, [], s))
                undone = []
                t = t2

    def undo():
        nonlocal t
        nest = cnt = 0
        while log:
            a = log.pop()
            undone.append(a)
            if a == "eg":
                nest += 1
            elif a == "sg":
                nest -= 1
            else:
                x, old, new = a
                t = t[:x] + old + t[x + len(new):]
                cnt += 1
            if nest == 0 and cnt:
                break

    def redo():
        nest = cnt = 0
        while undone:
            a = undone.pop()
            log.append(a)
            if a == "sg":
                nest += 1
            elif a == "eg":
                nest -= 1
            else:
                act(a)
                cnt += 1
            if nest == 0 and cnt:
                break

    for _ in range(r.randint(2, 14)):
        k = r.random()
        if k < .45:
            run(balanced(r, r.randint(1, 3)))
        elif k < .75:
            for _ in range(r.randint(1, 4)):
                evs.append(bufev("undo"))
                undo()
        elif k < .95:
            for _ in range(r.randint(1, 4)):
                evs.append(bufev("redo"))
                redo()
        elif k < .98:
            evs.append(bufev("revert"))
            while log:
                undo()
        elif k < .99:
            evs.append(bufev("clear"))
            log, undone = [], []
        else:
            evs.append(bufev("clone"))
    return {"kind": "buf", "cfg": {"init": init}, "ev": evs}


# --- words ------------------------------------------------------------------
def p20(r):
    if r.random() < .3:
        # the words of a line being edited
        vi = r.random() < .3
        cfg = divided(r, config(vi=vi, init=line(r, nl=.05), hist=rhist(r, 4), cmp=["r", "q"], want=["q"]))
        evs = []
        for _ in range(r.randint(5, 25)):
            evs.append(pick(r, [(8, lambda r: key(anykey(r, vi))), (2, lambda r: ev("to", n=r.randint(0, 14))), (1, lambda r: key(ch(r.choice(" \\,.")))), (.5, lambda r: ev("noeol", n=r.randint(0, 1)))]))
        return session(cfg, evs)
    evs = []
    for _ in range(r.randint(3, 8)):
        n = r.choice([0, 1, 3, 6, 10, 16])
        t = [ord(r.choice("ab.  \\\\")) if r.random() < .9 else r.choice(UNI + [9, 10]) for _ in range(r.randint(0, n))]
        ws, at = [], 0
        for _ in range(r.randint(0, 4)):
            x = at + r.randint(0, 3)
            y = x + r.randint(1, 3)
            ws.append([x, y])
            at = y
        for c in ([r.randint(0, len(t))] if len(t) > 6 else range(len(t) + 1)):
            evs.append({"op": "w", "t": t, "n": c, "w": ws if r.random() < .7 else []})
        for c in range(0, at + 2):
            if r.random() < .5:
                evs.append({"op": "w", "t": t, "n": c, "w": ws})
    return {"kind": "words", "cfg": {"x": 0}, "ev": evs}


# --- file names ---------------------------------------------------------------
FNAMES = ["~", "~a", "$x", "*", "a?", "a;b", "(y)", "[z]", "a:b", "=", "!", "&", "{q}", "a,b", "a|", "`", "^", "@", "+", "aΣ", "aΣb", "Aσ", "ς d", "Ａ", "ﬁ", "a", "ab", "A", "Ab", "abc", "a b", "a b c", " a", "b ", "foo", "Foo", "foo.txt", ".hid", ".h b", "é", "É", "ñu b", "x y", "x", "..a",
          "...", "世", "'q", "q'", "\"d", "a\\b", "-", "#c", "İ", "ß"]
FNDIRS = ["d", "D", "dir", "d e", "a", "foo", ".g", "é", "d  f"]


def p18(r):
    tree = []
    dirs = [""]
    for _ in range(r.randint(0, 5)):
        p = r.choice(dirs) + r.choice(FNDIRS) + "/"
        if p not in dirs:
            dirs.append(p)
            tree.append(p)
    for _ in range(r.randint(0, 9)):
        p = r.choice(dirs) + r.choice(FNAMES)
        if p + "/" not in dirs and p not in tree:
            tree.append(p)
    cwd = r.choice(dirs)
    links = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        p = r.choice(dirs) + r.choice(FNAMES + FNDIRS)
        if p + "/" not in dirs and p not in tree and p not in [l[0] for l in links]:
            # to a directory, a file or nowhere
            to = r.choice([d for d in dirs if d] * 3 + [f for f in tree if not f.endswith("/")] + ["nosuch"])
            links.append([p, to.rstrip("/")])
    names = [p.rstrip("/") for p in tree] + [p for p, _ in links] * 2 or ["a"]

    def esc(s):
        return s.replace(" ", "\\ ")

    def part(s):
        return s[:r.randint(0, len(s))]

    evs = []
    for _ in range(r.randint(4, 12)):
        k = r.random()
        full = r.choice(names)
        if k < .3:
            # from the working directory
            t = full[len(cwd):] if full.startswith(cwd) else "../" * cwd.count("/") + full
        elif k < .5:
            t = "%/" + full
        elif k < .6:
            t = r.choice(["", ".", "..", "./", "/" if False else "", "../" if cwd else "", "..", "...", ".h", "'", '"', "\\", "\\ ", " ", "a\\", "nosuch/", "nosuch/x", "%/", "%/./", "a/b"])
        elif k < .72:
            t = full.split("/")[-1]
        else:
            t = r.choice(["./", "", "../" if cwd else "./", "%/" + cwd, "d/../", "dir/", "d/./"]) + r.choice(FNAMES)
        if r.random() < .5 and len(t) > 2 and not t.endswith(".."):
            base = t.rfind("/") + 1
            t = t[:base] + part(t[base:])
        if r.random() < .15 and not t.endswith("/"):
            t += "/" if r.random() < .7 else "/.."
        if r.random() < .1:
            t = t.swapcase()
        # do not climb out of the tree
        depth, low = (0 if t.startswith("%") else cwd.count("/")), 0
        for c in t.lstrip("'\"").replace("%", "").split("/"):
            if c == "..":
                depth -= 1
            elif c not in ("", "."):
                depth += 1
            low = min(low, depth)
        if low < 0 or links and t.count("..") > 1 or t.lstrip("'\"").startswith("/"):
            continue
        q = r.random()
        if q < .12 and "'" not in t and '"' not in t:
            t = r.choice("'\"") + t
            if r.random() < .5:
                t += t[0]
        elif q < .93:
            t = esc(t)
        evs.append({"op": "c", "t": cps(t)})
    if not evs:
        evs.append({"op": "c", "t": []})
    return {"kind": "fname", "cfg": {"tree": [cps(p) for p in tree], "links": [[cps(a), cps(b)] for a, b in links], "cwd": cps(cwd), "wd": r.choice(["abs", "abs", "none"]), "plain": r.random() < .3,
                                     "case": r.random() < .5}, "ev": evs}


# --- histories ------------------------------------------------------------------
def hev(op, p=0, n=0, t=None, x=-1, u=None):
    return {"op": op, "p": p, "n": n, "t": t or [], "x": x, "u": u or []}


def entry(r, nl=0.0):
    k = r.random()
    if k < .75:
        return cps(r.choice(["a", "b", "c", "d", "ab", "abc", "foo", "foo bar", "x", ""][: r.choice([4, 10])]))
    e = [c for c in rtext(r, 8) if c != 10]
    if r.random() < nl:
        e.insert(r.randint(0, len(e)), 10)
    return e


def hcfg(**kw):
    c = {"peers": 1, "asis": False, "dup": True, "inc": False, "share": False, "ldup": True, "maxb": 1000, "maxf": 1000}
    c.update(kw)
    return c


def asked(r, e):
    e.update(x=r.choice([-1, -1, 0, 1, 2, 5, 99]), u=r.choice([entry(r), cps("f"), cps("a"), cps("fo"), [], cps("b")]))
    return e


def long_list(r):
    """A history as it is made, filled beyond its limits."""
    k = r.random()
    cfg = hcfg(asis=k < .7)
    evs = []
    if r.random() < .6:
        evs.append(hev("write", t=[c for i in range(r.choice([3, 990, 1001, 1010])) for c in cps("l%d\n" % (i % 997))]))
        evs.append(hev(r.choice(["setfile", "loadfile"])))
    if r.random() < .3:
        evs.append(hev("inc", n=1))
    evs.append(hev("fill", n=r.choice([20, 995, 1000, 1003]), t=cps("e")))
    evs += [asked(r, hev("push", t=cps("e1002"))), asked(r, hev("push", t=cps(r.choice(["e1002", "q"])))), hev(r.choice(["commit", "commitpath", "load", "nop"]))]
    return {"kind": "hist", "cfg": cfg, "ev": evs}


def p15(r):
    if r.random() < .01:
        return long_list(r)
    cfg = hcfg(dup=r.random() < .5, maxb=r.choice([0, 1, 2, 3, 5, 8, 1000]), maxf=r.choice([0, 1, 2, 4, 1000]), ldup=r.random() < .6)
    evs = []
    for _ in range(r.randint(3, 25)):
        e = pick(r, [(12, lambda r: hev("push", t=entry(r, .3))), (1, lambda r: hev("maxb", n=r.choice([0, 1, 2, 3, 6, 1000]))), (1, lambda r: hev("rmdup", t=entry(r, .2))),
                     (.3, lambda r: hev("clear")), (.6, lambda r: hev("dup", n=r.randint(0, 1))), (2, lambda r: hev("nop")),
                     # written to a file and read from it
                     (.4, lambda r: hev("commitother")), (.3, lambda r: hev("loadother", n=r.randint(0, 1))), (.3, lambda r: hev("maxf", n=r.choice([0, 1, 2, 5, 1000])))])
        evs.append(asked(r, e))
    return {"kind": "hist", "cfg": cfg, "ev": evs}


def content(r):
    """A file; now and then with lines that are no text."""
    out = []
    bad = r.random() < .15
    for _ in range(r.randint(0, 8)):
        e = entry(r)
        if r.random() < .15:
            e = cps("#") + e
        if e and r.random() < .05:
            e = e + cps("#")
        if bad and r.random() < .3:
            e = list(e)
            e.insert(r.randint(0, len(e)), -1)
        out += e + [10]
    if out and r.random() < .25:
        out.pop()
    return out


def p16(r):
    if r.random() < .004:
        return long_list(r)
    big = r.random() < .35
    cfg = hcfg(dup=r.random() < .6, inc=r.random() < .6, ldup=r.random() < .5, maxb=r.choice([1, 3, 10, 1000, 1000]),
               maxf=r.choice([0, 1, 2, 5, 10, 40, 1000, 1000]))
    evs = []
    if r.random() < .6:
        evs.append(hev("write", t=content(r)))
    if r.random() < .85:
        evs.append(hev("setfile"))
    for _ in range(r.randint(3, 12) if not big else r.randint(35, 75)):
        w = 40 if big else 8
        evs.append(pick(r, [(w, lambda r: hev("push", t=entry(r))), (1, lambda r: hev("load", n=r.randint(0, 1))), (1, lambda r: hev("loadfile", n=r.randint(0, 1))),
                            (1, lambda r: hev("commit")), (1, lambda r: hev("commitpath")), (.6, lambda r: hev("commitother")), (.6, lambda r: hev("loadother", n=r.randint(0, 1))),
                            (.4, lambda r: hev("maxf", n=r.choice([0, 1, 3, 5, 1000]))), (.3, lambda r: hev("maxb", n=r.choice([1, 3, 1000]))), (.4, lambda r: hev("inc", n=r.randint(0, 1))),
                            (.3, lambda r: hev("ldup", n=r.randint(0, 1))), (.4, lambda r: hev("setfile")), (.2, lambda r: hev("clear")), (.4, lambda r: hev("write", t=content(r))),
                            (.3, lambda r: hev("append", t=content(r))), (.15, lambda r: hev("unlink")), (.2, lambda r: hev("rmdup", t=entry(r)))]))
    return {"kind": "hist", "cfg": cfg, "ev": evs}


def p17(r):
    k = r.random()
    if k < .3:
        return p17ed(r)
    if k < .6:
        return p17race(r)
    peers = r.choice([2, 2, 3])
    big = r.random() < .45
    cfg = hcfg(peers=peers, dup=r.random() < .6, inc=True, share=True, ldup=r.random() < .35, maxb=r.choice([3, 10, 1000, 1000]),
               maxf=r.choice([5, 10, 30, 1000, 1000, 1000]))
    evs = []
    if r.random() < .5:
        evs.append(hev("write", t=content(r)))
    for p in range(peers):
        if r.random() < .9:
            evs.append(hev("setfile", p))
    n = r.randint(4, 20) if not big else r.randint(70, 110)
    w = 30 if big else 6
    for _ in range(n):
        p = r.randrange(peers)
        evs.append(pick(r, [(w, lambda r: hev("push", p, t=entry(r))), (3, lambda r: hev("load", p, n=0)), (.5, lambda r: hev("setfile", p)),
                            (.3, lambda r: hev("loadfile", p, n=0)), (.3, lambda r: hev("commit", p)), (.2, lambda r: hev("append", p, t=entry(r) + [10])),
                            (.2, lambda r: hev("commitpath", p))]))
    return {"kind": "hist", "cfg": cfg, "ev": evs}


def p17race(r):
    """Sessions stopped inside their operations."""
    peers = r.choice([2, 2, 3])
    share = r.random() < .7
    cfg = hcfg(peers=peers, dup=r.random() < .7, inc=True, share=share, ldup=r.random() < .25, maxb=r.choice([3, 1000, 1000]), maxf=r.choice([2, 5, 30, 1000, 1000]))

    def e():
        return cps(r.choice(["a", "b", "cc", "dd", "#e", "", "f g"]))
    pre = [hev("write", t=[c for _ in range(r.randint(0, 4)) for c in e() + [10]])] if r.random() < .4 else []
    pre += [hev("setfile", p) for p in range(peers)]
    for p in range(peers):
        pre += [hev("push", p, t=e()) for _ in range(r.choice([0, 0, 27, 28, 29, 29, 29]))]
        if r.random() < .5:
            pre.append(hev("load", p))
    if r.random() < .3:
        r.shuffle(pre)
        pre = [hev("setfile", p) for p in range(peers)] + pre
    prog = [[pick(r, [(4, lambda r: hev("push", t=e())), (1, lambda r: hev("load"))]) for _ in range(r.randint(1, 5))] for _ in range(peers)]
    cfg.update(pre=pre, prog=prog)
    evs = []
    for _ in range(r.randint(4, 50)):
        p = r.randrange(peers)
        evs += [{"op": "g", "p": p}] * r.choice([1, 1, 1, 2, 4])
    return {"kind": "race", "cfg": cfg, "ev": evs}


def p17ed(r):
    """Browsing and searching a shared history other sessions add to."""
    vi = r.random() < .3
    cfg = config(vi=vi, init=r.choice([[], [], cps("a"), cps("f"), cps("fo")]), fn=True, share=True, inc=True, ldup=r.random() < .6, f=[content(r)],
                 maxf=r.choice([0, 0, 3, 5]), cmp=["r", "t", "c", "h", "hs", "fl"], want=["hs"])
    evs = []
    for _ in range(r.randint(4, 18)):
        evs += pick(r, [(4, lambda r: [ev("peer", t=entry(r))]), (6, lambda r: keys([UP])), (4, lambda r: keys([DOWN])), (2, lambda r: keys([r.choice([ctrl("r"), ctrl("s")])])),
                        (2, lambda r: typed(r.choice("abf"))), (1, lambda r: keys([BSP])), (1, lambda r: keys([ctrl("f")])), (1, lambda r: keys([alt("<") if not vi else ESC])),
                        (.5, lambda r: keys([alt(">") if not vi else ch("k")])), (.5, lambda r: keys([ctrl("l")])),
                        (1, lambda r: [ev("peerw", t=content(r))])])
        if r.random() < .15:
            # the entries may be read anew while one of them is shown
            cfg["cand"] = [cps("aa"), cps("bb")]
            evs += keys([UP] * r.randint(1, 3) + r.choice([[ch("\\"), ENTER], [TAB_, ENTER], [ch(" "), TAB_, ENTER]]))
            evs += r.choice([[ev("peerw", t=r.choice([[], content(r), content(r)[:r.randint(0, 8)] + [10]]))], [ev("peer", t=entry(r))]]) + keys([r.choice([UP, UP, DOWN, ctrl("r"), ctrl("s")]), r.choice([UP, ctrl("r"), BSP, DOWN])])
    return session(cfg, evs)


MODULE = {"ed": "TraceEd", "rl": "TraceRl", "buf": "TraceBuf", "hist": "TraceHist", "words": "TraceWords", "fname": "TraceFn", "race": "TraceRace"}
PROFILES = {n.upper(): f for n, f in list(globals().items()) if len(n) == 3 and n[0] == "p" and n[1:].isdigit()}


# --- sessions kept ----------------------------------------------------------------
def corpus(prop):
    """Sessions that showed something once."""
    import json
    import os
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus", prop + ".ndjson")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [json.loads(l) for l in f if l.strip()]


# --- a real terminal -------------------------------------------------------------
PTY_KEYS = {"Char", "Alt", "Left", "Right", "Up", "Down", "Home", "End", "Backspace", "Delete", "Esc", "PageUp", "PageDown", "Insert", "BackTab", "Ctrl"}


def sendable(k):
    """Whether a terminal can send this key so that it is this key that is read."""
    c = k["c"]
    if k["k"] == "Ctrl":
        return 97 <= c <= 122 and chr(c) not in "cijm"
    if k["k"] == "Alt":
        return 32 < c < 127 and chr(c) not in "O["
    if k["k"] == "Char":
        return c in (9, 10) or c >= 32 and c != 127 and not 128 <= c < 160
    return k["k"] in PTY_KEYS


ON_PTY = ["P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P22", "P23", "P24"]


def pty(r, prop):
    """A session of the property's own on the library's own terminal."""
    s = PROFILES[prop if prop in ON_PTY else r.choice(ON_PTY)](r)
    s = session(s["cfg"], [e for e in s["ev"] if e["op"] == "key" and sendable(e["k"])])
    cfg = s["cfg"]
    w = cfg["w"] if 0 < cfg["w"] < 1000 else 80
    if prop == "P13" and r.random() < .3:
        # rows of the width taken for granted when the terminal does not tell
        w = 80
        cfg["init"] = rtext(r, 40, uni=.1) + [97] * r.randint(0, 200)
    s["pty"], s["pw"] = True, 0 if w == 80 and r.random() < .5 else w
    cfg.update(w=w, short=0, cmp=[c for c in cfg["cmp"] if c in ("r", "t", "c", "h", "s", "scr", "att")] if prop in ON_PTY else ["r", "t"],
               want={k: False for k in cfg["want"]}, hook=dict(NOHOOK), fn=False)
    return s
