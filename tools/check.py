#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property of the library built from /repo's working tree:
  model     TLC explores a bounded model of the specification exhaustively and
            checks the property's invariants in it;
  replay    behaviours TLC enumerated are run in the code, which has to show
            what the specification shows;
  record    random sessions are run in the code and what it showed is checked
            against the specification by TLC.
Exit 0: it held on everything explored; 1 with a VIOLATION line: it is broken;
2: a tool failed.
"""
import argparse
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import findings
import focus
import gen
import large
import lib
import models

# sessions of one recorded batch, and of the quick tier
BATCH = {"P01": 2000, "P09": 2400, "P10": 1800, "P11": 1800, "P12": 2000, "P13": 1800, "P22": 1500, "P24": 2000, "P17": 1400,
         "P16": 2400, "P19": 2400, "P14": 2400}
LARGE = 60  # large sessions in a batch
PTY = 60  # sessions on a pseudo-terminal in a batch
THOROUGH_SECONDS = 600


def note(msg):
    print("[%6.1fs] %s" % (time.time() - T0, msg), flush=True)


T0 = time.time()


class Run:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "events_validated": 0,
                    "inconclusive_sessions": 0, "models": []}
        self.bad = []  # (record, mismatch)
        self.hangs = False  # the code is known not to answer

    def judge(self, sessions, origin):
        """Run sessions in the code, validate them, keep what breaks the property."""
        by_kind = {}
        for s in sessions:
            by_kind.setdefault(s["kind"], []).append(s)
        for kind, ss in by_kind.items():
            recs = lib.run_code(ss, self.work)
            st, mism, _ = lib.validate(gen.MODULE[kind], recs, self.work)
            self.cov["states"] += st
            self.cov["transitions"] += st - len(recs)
            self.took(recs, mism, origin)

    def answers_never(self, r, m):
        """Where no answer came in time: none does when asked alone, with more time (or the
        machine was just busy).  Anything else is as it is."""
        if focus.observed(r, m).get("r") != 8 or self.hangs:
            return True
        self.hangs = bool(still(self, r))
        return self.hangs

    def took(self, recs, mism, origin):
        """Count what was recorded and keep what breaks the property."""
        self.cov["events_validated"] += sum(len(r["ev"]) for r in recs)
        self.cov["traces_validated_against_impl"] += len(recs)
        if recs and len(self.cov["samples"]) < 4:
            self.cov["samples"].append({"origin": origin, "session": focus.describe(recs[len(recs) // 2])})
        for m in sorted(mism, key=lambda m: m["i"]):
            r = recs[m["rec"]]
            if focus.breaks(self.prop, r, m) and self.answers_never(r, m):
                self.bad.append((r, m))
            else:
                self.cov["inconclusive_sessions"] += 1


def still(run, session, limit=60):
    """The first mismatch of this session alone that breaks the property."""
    s = focus.bare(session)
    recs = lib.run_code([s], run.work, limit)
    _, mism, _ = lib.validate(gen.MODULE[s["kind"]], recs, run.work, shards=1)
    for m in mism:
        if focus.breaks(run.prop, recs[m["rec"]], m):
            return recs[m["rec"]], m
    return None


def shrink(run, rec, m, until):
    """Leave out events as long as the property stays broken."""
    best = (rec, m)
    while time.time() < until:
        r, mm = best
        ev = r["ev"][:mm["i"]]
        n = len(ev)
        cands = []
        for size in sorted({max(1, n // 2), max(1, n // 4), 1}, reverse=True):
            for at in range(0, n, size):
                cands.append(ev[:at] + ev[at + size:])
        cands = [c for c in cands if len(c) < n][:120]
        if not cands:
            break
        ss = []
        for c in cands:
            s = focus.bare(r)
            s["ev"] = [{k: v for k, v in e.items() if k != "o"} for e in c]
            ss.append(s)
        ss = [s for s in ss if focus.wellformed(s)]
        try:
            recs = lib.run_code(ss, run.work, 5)
            _, mism, _ = lib.validate(gen.MODULE[r["kind"]], recs, run.work, shards=4)
        except lib.ToolError:
            break
        ok = [(recs[x["rec"]], x) for x in mism if focus.breaks(run.prop, recs[x["rec"]], x)]
        if not ok:
            break
        best = min(ok, key=lambda rx: rx[1]["i"])
        if best[1]["i"] >= n:
            break
    return best


def report(run, rec, m):
    d = os.path.join(lib.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % run.prop)
    s = focus.bare(rec)
    s["ev"] = s["ev"][:max(m["i"], 1)]
    with open(path, "w") as f:
        json.dump({"property": run.prop, "session": s, "fields": m["d"], "expected": {k: v for k, v in m["exp"].items()},
                   "observed": focus.observed(rec, m)}, f, indent=1)
    for line in focus.explain(rec, m):
        print("  " + line)
    print("VIOLATION property=%s replay=%s" % (run.prop, os.path.relpath(path, lib.VERIF)), flush=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", choices=["model", "replay", "record"])
    a = ap.parse_args()
    with lib.Work() as work:
        run = Run(a.prop, a.tier, a.seed, work)
        lib.build()
        note("harness built")
        if a.replay:
            with open(a.replay) as f:
                found = still(run, json.load(f)["session"])
            if found:
                report(run, *found)
                return 1
            print("not reproduced")
            return 0
        if a.only in (None, "record", "replay"):
            for line in findings.known(a.prop, work):
                print(line, flush=True)
        # the specification itself, and its behaviours in the code
        if a.only in (None, "model", "replay"):
            for mc in models.of(a.prop, a.tier):
                res = mc.run(work)
                run.cov["states"] += res["states"]
                run.cov["transitions"] += res["transitions"]
                stat = {k: res[k] for k in ("name", "states", "transitions", "exhaustive", "behaviours", "depth", "unbounded", "actions")}
                run.cov["models"].append(stat)
                note("model %s: %d states, %d transitions, %d behaviours" % (res["name"], res["states"], res["transitions"], res["behaviours"]))
                if a.only != "model":
                    recs, mism = mc.replay(res, work)
                    run.took(recs, mism, "a behaviour of the model " + res["name"])
                    stat["replayed"] = len(recs)
                    note("replayed %d sessions; %d break the property" % (len(recs), len(run.bad)))
                if run.bad:
                    break
        # recorded sessions
        if not run.bad and a.only in (None, "record"):
            until = T0 + THOROUGH_SECONDS
            batch = 0
            while True:
                r = random.Random("%s:%d:%d" % (a.prop, a.seed, batch))
                n = BATCH.get(a.prop, 3000)
                ss = [gen.PROFILES[a.prop](r) for _ in range(n)]
                if batch == 0:
                    ss = gen.corpus(a.prop) + ss
                run.judge(ss, "recorded")
                r = random.Random("large:%s:%d:%d" % (a.prop, a.seed, batch))
                if not run.bad:
                    big = [large.LARGE[a.prop](r) for _ in range(LARGE)]
                    run.judge(big, "recorded, large")
                    ss += big
                if not run.bad and a.prop in gen.ON_PTY + ["P14"]:
                    r = random.Random("pty:%s:%d:%d" % (a.prop, a.seed, batch))
                    real = [gen.pty(r, a.prop) for _ in range(PTY)]
                    run.judge(real, "recorded on a pseudo-terminal")
                    ss += real
                batch += 1
                note("batch %d: %d sessions recorded, %d break the property" % (batch, len(ss), len(run.bad)))
                if run.bad or a.tier == "quick" or time.time() > until:
                    break
            run.cov["recorded_batches"] = batch
        code = 0
        flaky = 0
        if run.bad:
            # report the shortest one that comes out the same again
            for rec, m in sorted(run.bad, key=lambda rm: rm[1]["i"])[:6]:
                again = next(filter(None, (still(run, rec) for _ in range(3))), None)
                if again:
                    rec, m = shrink(run, again[0], again[1], time.time() + 45)
                    report(run, rec, m)
                    code = 1
                    break
                flaky += 1
            if code == 0:
                note("%d mismatches did not come out again" % flaky)
                raise lib.ToolError("what the code shows is not reproducible")
        ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "model_checking", "coverage": run.cov,
              "assumptions": focus.ASSUMPTIONS, "wall_s": round(time.time() - T0, 2), "violations": 1 if code else 0}
        os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(lib.VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        note("%s: %s" % (a.prop, "broken" if code else "held on everything explored"))
        return code


if __name__ == "__main__":
    try:
        sys.exit(main())
    except lib.ToolError as e:
        print("tool error: %s" % e, file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
