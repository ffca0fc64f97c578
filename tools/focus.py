"""What a difference between the code and the specification says about the
property under check, and how to show it."""
import json

import lib

ASSUMPTIONS = [
    "the driver's terminal (width-based wrapping, unlimited height, the escape sequences the library uses) stands for real ones",
    "texts, candidates, histories and trees are those the models and generators build",
]


def bare(rec):
    """The session without what was observed."""
    s = {k: v for k, v in rec.items() if k not in ("o0", "clipped")}
    s["ev"] = [{k: v for k, v in e.items() if k != "o"} for e in rec["ev"]]
    return json.loads(json.dumps(s))


def wellformed(s):
    """Sessions whose positions are computed for the text at hand cannot be
    cut anywhere."""
    return s["kind"] in ("ed", "rl", "hist", "words", "fname", "race")


def is_key(e, k, c=None):
    return e.get("op") in ("key", "core") and e["k"]["k"] == k and (c is None or e["k"]["c"] in [ord(x) for x in c])


def observed(rec, m):
    if m["i"] == 0:
        return rec.get("o0")
    return rec["ev"][m["i"] - 1]["o"]


def _upto(rec, m):
    return rec["ev"][:m["i"]]


def _dead(rec, m):
    return observed(rec, m)["r"] in (8, 9)


# --- per property ---------------------------------------------------------------
# Most profiles only press keys their property speaks about and compare only the
# fields it speaks about, so any difference breaks it.  The others:
def _p04(rec, m):
    e = rec["ev"][m["i"] - 1] if m["i"] else {}
    undo = e.get("op") in ("undo", "redo", "revert") or is_key(e, "Char", "u") or is_key(e, "Ctrl", "xr") or is_key(e, "Alt", "r")
    return undo


def _after(test):
    return lambda rec, m: any(test(e) for e in _upto(rec, m))


def _p09(rec, m):
    e = rec["ev"][m["i"] - 1] if m["i"] else {}
    nav = is_key(e, "Up") or is_key(e, "Down") or is_key(e, "Ctrl", "pn") or is_key(e, "Alt", "<>") or is_key(e, "Char", "jk")
    return nav or m["exp"].get("h", -1) != -1 or "h" in m["d"] or "hs" in m["d"]


def _p11(rec, m):
    e = rec["ev"][m["i"] - 1] if m["i"] else {}
    return bool({"s", "scr"} & set(m["d"])) or is_key(e, "Ctrl", "f") or is_key(e, "Right") or e.get("op") == "accept"


def _only(*fields):
    """The difference is in these fields and in nothing else."""
    return lambda rec, m: bool(set(m["d"]) & set(fields)) and not set(m["d"]) - set(fields)


def _p21(rec, m):
    if not {"t", "c", "r"} & set(m["d"]):
        return True
    h = rec["cfg"]["hook"]
    lg = m["exp"].get("lg") or []
    return h["on"] != "-" and any(x["x"] == h["on"] and (h["on"] == "C" or x["k"] == h["k"]) for x in lg)


RULES = {
    "P04": _p04,
    "P08": _after(lambda e: is_key(e, "Char", ".")),
    "P09": _p09,
    "P10": _after(lambda e: is_key(e, "Ctrl", "rs")),
    "P11": _p11,
    "P12": _after(lambda e: is_key(e, "Char", "\t") or e.get("op") == "complete"),
    "P13": _only("scr"),
    "P15": lambda rec, m: bool(set(m["d"]) - {"f", "g"}),
    "P21": _p21,
    "P23": _after(lambda e: is_key(e, "Alt", ".")),
}


def breaks(prop, rec, m):
    if _dead(rec, m):
        return True
    rule = RULES.get(prop)
    return rule is None or rule(rec, m)


# --- showing ----------------------------------------------------------------------
def show(v, depth=0):
    if isinstance(v, list):
        if v and all(isinstance(x, int) and not isinstance(x, bool) for x in v):
            try:
                return repr(lib.show_text(v))
            except (ValueError, OverflowError):
                return str(v)
        return "[" + ", ".join(show(x, depth + 1) for x in v) + "]"
    if isinstance(v, dict):
        if set(v) == {"k", "c"}:
            return lib.show_key(v)
        return "{" + ", ".join("%s:%s" % (k, show(x, depth + 1)) for k, x in v.items()) + "}"
    return str(v)


def events(rec, n=None):
    ev = rec["ev"][:n]
    if rec["kind"] == "ed":
        return " ".join(lib.show_event(e) for e in ev)
    return "; ".join(show({k: v for k, v in e.items() if k != "o" and v not in ([], 0, False, -1)}) for e in ev)


def describe(rec):
    cfg = {k: v for k, v in rec["cfg"].items() if k not in ("want", "cmp") and v not in ([], 0, False, "-", "")}
    if cfg.get("hook", {}).get("on") == "-":
        cfg.pop("hook")
    return {"kind": rec["kind"], "cfg": show(cfg)[:600], "events": events(rec)[:1200]}


def explain(rec, m):
    d = describe(rec)
    o = observed(rec, m)
    yield "session: %s %s" % (rec["kind"], d["cfg"])
    yield "events : %s" % events(rec, m["i"])[:3000]
    for f in m["d"]:
        w = m["exp"].get(f, m["exp"])
        g = o.get(f) if o else None
        if f in ("safe",):
            w, g = "the cursor on the line", {"t": o["t"], "c": o["c"]}
        if f in ("ind", "att"):
            w, g = m["exp"].get("scr", {}), o.get("scr", {})
        yield "%-6s  : the specification shows %s" % (f, show(w)[:1500])
        yield "          the code shows          %s" % show(g)[:1500]
    if o and o.get("note"):
        yield "note    : %s" % o["note"][:500]
