#!/usr/bin/env python3
"""Decide one property:  check.py <id> [quick|thorough]

For every scenario of the property the engine (engine/, built to bin/vpx)
encodes /repo's current source and lets the solver decide the assertions.
Every counterexample is replayed against the real code: only one that the real
code reproduces is reported as a violation.
"""
import json, os, re, signal, subprocess, sys, threading, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, ROOT)
import scenarios

OUT = os.path.join(ROOT, "out")
BIN = os.path.join(ROOT, "bin", "vpx")


def env():
    e = dict(os.environ)
    if os.path.exists("/opt/vp/env.sh"):
        r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True)
        for kv in r.stdout.split(b"\0"):
            if b"=" in kv:
                k, v = kv.decode(errors="replace").split("=", 1)
                e[k] = v
    e.pop("VP_V", None)
    e.setdefault("GOFLAGS", "-mod=mod")
    return e


ENV = env()


def build_engine():
    os.makedirs(os.path.dirname(BIN), exist_ok=True)
    r = subprocess.run(["go", "build", "-o", BIN + ".%d" % os.getpid(), "."], cwd=os.path.join(ROOT, "engine"), env=ENV, capture_output=True, text=True)
    if r.returncode != 0:
        print("engine does not build:", r.stderr[-2000:])
        sys.exit(3)
    os.replace(BIN + ".%d" % os.getpid(), BIN)


GRACE = 30       # seconds the other scenarios get once one has shown a violation
RUNNING, HIT, LOCK = {}, [], threading.Lock()


def run_engine(sc, prop, tier, work):
    o = os.path.join(work, sc.key + ".json")
    secs = sc.secs(tier)
    if HIT:
        secs = min(secs, GRACE)
    cmd = [BIN, "-repo", REPO, "-harness", os.path.join(ROOT, "harness"), "-pkg", sc.pkg, "-fn", sc.fn, "-prop", prop, "-out", o,
           "-secs", str(secs)] + sc.flags(tier)
    t = time.time()
    p = subprocess.Popen(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with LOCK:
        RUNNING[sc.key] = p
    try:
        text, _ = p.communicate(timeout=secs + 120)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        rc, text = 99, "engine timed out"
    with LOCK:
        del RUNNING[sc.key]
    res = None
    if rc == 0 and os.path.exists(o):
        res = json.load(open(o))
    return sc, rc, text, res, time.time() - t


def wind_up():
    """A violation is confirmed: the scenarios that still run end soon."""
    with LOCK:
        if HIT:
            return
        HIT.append(time.time())

    def tell(sig):
        with LOCK:
            for p in RUNNING.values():
                p.send_signal(sig)

    for delay, sig in ((GRACE, signal.SIGUSR1), (GRACE + 90, signal.SIGKILL)):
        t = threading.Timer(delay, tell, [sig])
        t.daemon = True
        t.start()


LIB = "github.com/juju/worker/v4"


def race_hits(text, msg=""):
    """The data races the Go race detector reports between two accesses made
    by the library (not by the harness or by the replay itself). In a map
    access the detector loses the frame of the innermost caller: the expected
    race (msg) needs only one side whose function is known."""
    out = []
    for rep in text.split("WARNING: DATA RACE")[1:]:
        sides = []
        for blk in re.split(r"\n\s*\n", rep.split("\n==================")[0])[:2]:
            who = None
            for fn in re.findall(r"^  (\S+)\(.*\)$", blk, re.M):
                fn = fn.replace("%2e", ".")
                if re.match(re.escape(LIB) + r"/zzverif/vp\.(MapIter|\(\*MapIt|ChanIter|\(\*ChanIt)", fn):
                    continue
                if fn.startswith(LIB):
                    if "/zzverif/" not in fn:
                        who = fn
                    break
            sides.append(who)
        if len(sides) == 2 and not all(sides) and "runtime.mapa" in rep:
            known = sides[0] or sides[1] or "?"
            if "." + known.split(".func")[0].split(".")[-1] in msg:
                sides = [x or "map access" for x in sides]
        if len(sides) == 2 and all(sides):
            out.append("%s / %s" % tuple(sides))
    return out


class Replayer:
    """Builds the instrumented real code once per scenario."""

    def __init__(self, sc, work):
        self.race = ["-race"] if "-race" in sc.flags("quick") else []
        self.dir = os.path.join(work, "replay-" + sc.key)
        self.sc = sc
        self.ok = None
        self.why = ""

    def build(self):
        if self.ok is not None:
            return self.ok
        self.ok = False
        r = subprocess.run([BIN, "-repo", REPO, "-harness", os.path.join(ROOT, "harness"), "-instrument", self.dir, "-pkg", self.sc.pkg, "-fn", self.sc.fn],
                           env=ENV, capture_output=True, text=True)
        if r.returncode != 0:
            self.why = "instrumentation failed: " + r.stderr[-500:]
            return False
        r = subprocess.run(["go", "build"] + self.race + ["-modfile=" + self.dir + "/go.mod", "-overlay", self.dir + "/overlay.json", "-o", self.dir + "/replay", "./zzverif/replaymain"],
                           cwd=REPO, env=ENV, capture_output=True, text=True)
        if r.returncode != 0:
            self.why = "instrumented build failed: " + r.stderr[-1500:]
            return False
        self.ok = True
        return True

    def run(self, trace, path):
        json.dump(trace, open(path, "w"))
        if not self.build():
            return None, self.why
        try:
            r = subprocess.run([self.dir + "/replay"], env=dict(ENV, VP_TRACE=path, GORACE="exitcode=0 history_size=5"), capture_output=True, text=True, timeout=60, cwd=self.dir)
        except subprocess.TimeoutExpired:
            return None, "replay timed out"
        last = [l for l in r.stdout.splitlines() if l.startswith("VPREPLAY")]
        text = last[-1] if last else (r.stdout + r.stderr)[-500:]
        if trace["kind"] == "crash" and r.returncode == 2 and ("panic:" in r.stderr or "fatal error:" in r.stderr):
            m = re.search(r"(panic|fatal error): (.*)", r.stderr)
            return 10, "VPREPLAY crash " + m.group(0)
        if self.race:
            hits = race_hits(r.stderr, trace["msg"] if trace["kind"] == "race" else "")
            if trace["kind"] == "race" and hits:
                return 10, "VPREPLAY race " + hits[0]
            if trace["kind"] == "witness" and hits and r.returncode == 0:
                return 14, "VPREPLAY the race detector reports " + hits[0]
        return r.returncode, text


def replay_all(sc, res, prop, work, rdir):
    """Replays every counterexample and witness of a scenario."""
    rp, out = Replayer(sc, work), []
    for n, v in enumerate((res or {}).get("violations") or []):
        tr = {"msg": v["msg"], "kind": v["kind"], "pkg": sc.pkg, "fn": sc.fn, "property": prop, "events": (v["trace"] or {}).get("events") or []}
        tr["path"] = os.path.join(rdir, "%s-%s-%d.json" % (prop, sc.key, n))
        out.append(("violation", tr) + tuple(rp.run(tr, tr["path"])))
    for l, t in ((res or {}).get("witness") or {}).items():
        if t:
            tr = {"msg": l, "kind": "witness", "pkg": sc.pkg, "fn": sc.fn, "events": t["events"] or []}
            path = os.path.join(work, "w-%s-%s.json" % (sc.key, hashlib.sha1(l.encode()).hexdigest()[:8]))
            out.append(("witness", tr) + tuple(rp.run(tr, path)))
    return out


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) assert=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        build_engine()
        print("engine built")
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    build_engine()
    scs = scenarios.for_property(prop, tier)
    if not scs:
        print("no scenario for", prop)
        sys.exit(3)
    work = os.path.join(OUT, "%s-%s-%d" % (prop, tier, os.getpid()))
    os.makedirs(work, exist_ok=True)
    rdir = os.path.join(OUT, "replay")
    os.makedirs(rdir, exist_ok=True)
    known = known_findings(prop)
    viol, incon, samples, knownhit = [], [], [], []
    agg = dict(states=0, transitions=0, merged=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, instructions=0, race_accesses=0)
    funcs, asserts, per = set(), {}, []
    validated = 0
    failed = 0
    with ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        runs = {}

        def explore(sc):
            r = run_engine(sc, prop, tier, work)
            if (r[3] or {}).get("violations"):
                runs[sc.key] = replay_all(sc, r[3], prop, work, rdir)
                for kind, tr, code, _ in runs[sc.key]:
                    if tier == "quick" and kind == "violation" and code == 10 and not [k for k in known if k[0] == sc.key and k[1] == tr["msg"]]:
                        wind_up()
            return r

        results = list(ex.map(explore, sorted(scs, key=lambda s: -s.cost)))
        rest = [r for r in results if r[0].key not in runs]
        runs.update(zip([r[0].key for r in rest], ex.map(lambda r: replay_all(r[0], r[3], prop, work, rdir), rest)))
    for sc, rc, text, res, dt in results:
        if res is None:
            failed += 1
            incon.append("%s: engine failed (%s): %s" % (sc.key, rc, text.strip()[-600:]))
            continue
        for k, j in (("states", "states"), ("transitions", "transitions"), ("merged", "merged"), ("forks", "forks"), ("queries", "queries"), ("sat", "sat"), ("unsat", "unsat"), ("unknown", "unknown"), ("solver_s", "solver_seconds"), ("instructions", "instructions"), ("race_accesses", "race_accesses")):
            agg[k] += res[j]
        funcs.update(res["functions"] or [])
        for a in res["asserts"] or []:
            d = asserts.setdefault(a["msg"], {"checked": 0, "solver": 0})
            d["checked"] += a.get("checked", 0)
            d["solver"] += a.get("solver", 0)
        for i in res["inconclusive"] or []:
            incon.append("%s: %s" % (sc.key, i))
        unreached = [g for g, ok in (res["goals"] or {}).items() if not ok]
        per.append({"scenario": sc.key, "what": sc.doc, "states": res["states"], "transitions": res["transitions"], "depth": res["depth"],
                    "queries": res["queries"], "solver_s": round(res["solver_seconds"], 2), "seconds": round(res["seconds"], 2),
                    "reached": res["reach"] or [], "goals_not_reached": unreached, "exhausted_within_bounds": not res["inconclusive"]})
        for kind, tr, code, why in runs[sc.key]:
            if kind == "violation":
                if code != 10:
                    incon.append("%s: the counterexample to %r is not reproduced by the real code: %s" % (sc.key, tr["msg"], why))
                    continue
                validated += 1
                hit = [k for k in known if k[0] == sc.key and k[1] == tr["msg"]]
                if hit:
                    knownhit.append(hit[0])
                else:
                    viol.append((tr["msg"], sc.key, tr["path"], why))
                if len(samples) < 3:
                    samples.append({"scenario": sc.key, "counterexample": tr["msg"], "steps": brief(tr["events"])})
            else:
                if code == 0:
                    validated += 1
                else:
                    incon.append("%s: witness %r of the model is not reproduced by the real code: %s" % (sc.key, tr["msg"], why))
                if len(samples) < 3:
                    samples.append({"scenario": sc.key, "witness": tr["msg"], "steps": brief(tr["events"])})
    for k in sorted(set(knownhit)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    for msg, key, path, why in viol:
        print("counterexample [%s] %s (%s)" % (key, msg, why))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for i in incon:
        print("INCONCLUSIVE", i)
    cov = dict(agg)
    cov.update({
        "traces_validated_against_impl": validated,
        "samples": samples,
        "functions_encoded": sorted(funcs),
        "assertions": asserts,
        "scenarios": per,
        "bounds": scenarios.BOUNDS,
        "inconclusive": incon,
    })
    cov["solver_s"] = round(cov["solver_s"], 2)
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d scenarios, %d states, %d transitions, %d queries (%.1fs solver), %d traces validated, %d violations, %d inconclusive, %.1fs" % (
        prop, tier, len(scs), agg["states"], agg["transitions"], agg["queries"], agg["solver_s"], validated, len(viol), len(incon), time.time() - t0))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    if viol:
        sys.exit(1)
    if failed == len(scs):
        sys.exit(2)
    sys.exit(0)


def brief(events):
    l = []
    for e in events:
        if e["k"] == "step":
            l.append("%s %s %s" % (e.get("name"), e.get("op"), os.path.basename(e.get("pos", ""))))
        elif e["k"] == "nondet":
            l.append("input %s=%s" % (e.get("name"), e.get("val", 0)))
        if len(l) >= 60:
            l.append("...")
            break
    return l


if __name__ == "__main__":
    main()
