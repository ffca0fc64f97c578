"""Known findings: defects of the library that are recorded, not repaired.

Each entry of known_findings.json is one scripted session and what is wrong
with it; the check says so as long as it goes wrong in the code."""
import json
import os

import lib

FILE = os.path.join(lib.VERIF, "known_findings.json")
NL, HASH = 10, 35


def entries(f):
    out, line = [], []
    for c in (f[0] if f else []):
        if c == NL:
            out.append(line)
            line = []
        else:
            line.append(c)
    out += [line] if line else []
    return [e for e in out if e[:1] != [HASH]]


def reload_differs(o, arg):
    """What the session loaded is not what the file holds."""
    return o["b"] != entries(o["f"])


def entry_lost(o, arg):
    """An entry pushed is not in the file."""
    return arg not in entries(o["f"])


WRONG = {"reload_differs": reload_differs, "entry_lost": entry_lost}


def known(prop, work):
    with open(FILE) as f:
        listed = [x for x in json.load(f)["known"] if x["property"] == prop]
    recs = lib.run_code([x["session"] for x in listed], work, 60) if listed else []
    out = []
    for x, rec in zip(listed, recs):
        o = rec["ev"][-1]["o"]
        if o["r"] == 0 and WRONG[x["wrong"]](o, x.get("arg")):
            out.append("KNOWN-FINDING: property=%s %s" % (prop, x["what"]))
    return out
