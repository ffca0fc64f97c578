"""Running the harness and TLC."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
BIN = os.path.join(HARNESS, "target", "debug", "liner-conform")
CORES = max(2, min(8, os.cpu_count() or 2))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def build():
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("the harness does not build:\n" + p.stderr[-3000:])


# --- the code -----------------------------------------------------------------
def _dead(note):
    empty = []
    return {"r": 9, "note": note, "t": empty, "c": 0, "h": -1, "s": False, "n": False, "lg": [], "ar": [], "hs": [], "fl": [],
            "cl": [], "scr": {"g": [], "a": [], "y": 0, "x": 0, "u": 0}}


LONGEST = 1500


def clip(s):
    """Sessions are followed until their line gets too long."""
    if s["kind"] == "ed":
        for i, e in enumerate(s["ev"]):
            if len(e["o"]["t"]) > LONGEST:
                s["ev"] = s["ev"][:i]
                s["clipped"] = True
                break
    return s


def _run_shard(sessions, work, n, limit):
    """Run sessions in one harness process; a session that ends the process
    is recorded as dead and the rest goes on in a new one."""
    done = []
    turn = 0
    env = dict(os.environ, VP_SCRATCH=work)
    while len(done) < len(sessions):
        src, dst = os.path.join(work, "in%d.%d" % (n, turn)), os.path.join(work, "out%d.%d" % (n, turn))
        with open(src, "w") as f:
            for s in sessions[len(done):]:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
        cmd = "ulimit -v 6000000; exec %s run %s %s %d" % (BIN, src, dst, limit)
        p = subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, env=env)
        if p.returncode in (2, 3, 127):
            raise ToolError("harness: " + p.stderr[-2000:])
        got = []
        if os.path.exists(dst):
            with open(dst) as f:
                for line in f:
                    if line.endswith("\n"):
                        got.append(clip(json.loads(line)))
        done += got
        if len(done) < len(sessions) and p.returncode != 0:
            s = dict(sessions[len(done)])
            if s["kind"] == "ed":
                s["o0"] = _dead("the process ended (%d)" % p.returncode)
                s["ev"] = []
            else:
                s["ev"] = [dict(s["ev"][0], o=_dead("the process ended (%d)" % p.returncode))]
            done.append(s)
        elif len(done) < len(sessions):
            # enough hangs: what is left is not run
            break
        turn += 1
        if turn > 20:
            break
    return done


def run_code(sessions, work, limit=20):
    """Sessions with what the code showed, in order (the tail may be missing
    after repeated hangs)."""
    if not sessions:
        return []
    per = (len(sessions) + CORES - 1) // CORES
    shards = [sessions[i:i + per] for i in range(0, len(sessions), per)]
    with ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(lambda a: _run_shard(a[1], work, a[0], limit), enumerate(shards)))
    return [s for r in res for s in r]


# --- TLC ------------------------------------------------------------------------
STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue")


def tlc(module, cfg, work, env=None, workers=1, heap="3g", timeout=None, extra=(), out=None):
    """Run TLC; returns (exit code, output text or path, states generated, distinct)."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + SPEC, "-cp", JAR,
           "tlc2.TLC", "-noTE", "-workers", str(workers), "-metadir", meta, "-config", cfg, *extra, module]
    e = dict(os.environ, **(env or {}))
    outpath = out or os.path.join(work, "tlc-%s.out" % os.path.basename(meta))
    try:
        with open(outpath, "w") as f:
            p = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout)
            rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    gen = dist = left = 0
    with open(outpath, errors="replace") as f:
        for line in f:
            m = STATES.search(line)
            if m:
                gen, dist, left = map(int, m.groups())
    return rc, outpath, gen, dist, left


MISM = re.compile(r'^"MISMATCH (.*)"$')


def unquote(s):
    """The JSON text inside a string TLC printed."""
    return s.replace('\\"', '"').replace("\\\\", "\\")


def validate(module, records, work, heap="2g", shards=None, timeout=600):
    """Check recorded sessions against a trace specification.  Returns
    (states, mismatches, complete); a mismatch has the index of its record."""
    if not records:
        return 0, [], 0
    n = shards or CORES
    per = (len(records) + n - 1) // n
    parts = [(i, records[i:i + per]) for i in range(0, len(records), per)]

    def one(arg):
        off, recs = arg
        path = os.path.join(work, "trace%d.json" % off)
        with open(path, "w") as f:
            for r in recs:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        rc, out, gen, dist, left = tlc(module + ".tla", module + ".cfg", work, env={"TRACE": path}, workers=1, heap=heap, timeout=timeout)
        mism = []
        tail = []
        with open(out, errors="replace") as f:
            for line in f:
                m = MISM.match(line.rstrip("\n"))
                if m:
                    x = json.loads(unquote(m.group(1)))
                    x["rec"] = off + x["tid"] - 1
                    mism.append(x)
                else:
                    tail = (tail + [line])[-60:]
        if rc != 0:
            raise ToolError("TLC on %s: %s" % (module, "".join([l for l in tail if "rror" in l][:10] + tail)))
        # every session followed to its end, or to where it is reported
        stop = {m["tid"]: m["i"] for m in mism}
        want = sum(2 + min(len(r["ev"]), stop.get(k + 1, len(r["ev"]))) for k, r in enumerate(recs))
        if dist != want:
            raise ToolError("TLC on %s followed %d steps of %d: %s" % (module, dist, want, "".join(tail)))
        os.remove(path)
        os.remove(out)
        return dist, mism

    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, parts))
    return sum(r[0] for r in res), [m for r in res for m in r[1]], len(records)


class Work:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="liner-check-")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


# --- showing things -------------------------------------------------------------
def show_text(t):
    return "".join(chr(c) if c >= 0 else "\\xff" for c in t)


def show_key(k):
    if k["k"] == "Char":
        return {10: "<CR>", 9: "<Tab>", 32: "<Sp>"}.get(k["c"], chr(k["c"]))
    if k["k"] in ("Ctrl", "Alt"):
        return "<%s-%s>" % (k["k"][0], chr(k["c"]) if k["c"] > 32 and k["c"] != 127 else "BS")
    return "<%s>" % k["k"]


def show_event(e):
    if e["op"] in ("key",):
        return show_key(e["k"])
    if e["op"] == "core":
        return "{core " + show_key(e["k"]) + "}"
    return "{%s %s %s}" % (e["op"], e.get("n", ""), json.dumps(show_text(e.get("t", []))))
