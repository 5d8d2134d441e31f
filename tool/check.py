#!/usr/bin/env python3
"""check.py setup | check <property> [quick|thorough] | replay <file> | all [tier]"""
import concurrent.futures as cf, json, os, queue, re, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from props import PROPS

V = build.V
DEADLINE, DEADLINE_THOROUGH, LAST, GRACE = 660, 6000, 780, 20
MAXPAR = int(os.environ.get("KSYM_JOBS", "8"))


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


class Replayer:
    """Talks to the native replay program; restarted when it hangs or dies."""

    def __init__(self, exe):
        self.exe, self.p, self.lock = exe, None, threading.Lock()

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1)
        self.q = queue.Queue()
        threading.Thread(target=self.read, args=(self.p, self.q), daemon=True).start()

    @staticmethod
    def read(p, q):
        for line in p.stdout:
            q.put(line)
        q.put(None)

    def job(self, entry, params, inputs, timeout=20):
        with self.lock:
            if self.p is None or self.p.poll() is not None:
                self.start()
            text = "J %s %s\n" % (entry, ",".join(str(x) for x in params))
            for n, v in inputs:
                text += "I %s %s\n" % (n, v)
            text += "E\n"
            try:
                self.p.stdin.write(text)
                self.p.stdin.flush()
            except OSError:
                self.kill()
                return {"error": "replayer died"}
            end = time.time() + timeout
            while True:
                try:
                    line = self.q.get(timeout=max(0.0, end - time.time()))
                except queue.Empty:
                    self.kill()
                    return {"hang": True}
                if line is None:
                    rc = self.p.wait()
                    self.p = None
                    return {"died": rc}
                if line.startswith("RESULT "):  # libraries may print too
                    return json.loads(line[7:])

    def kill(self):
        if self.p:
            self.p.kill()
            self.p.wait()
        self.p = None


def reproduces(label, r):
    """Does the native run fail the way the symbolic run said it would?"""
    core = label.split("/", 1)[1] if "/" in label else label
    if core.startswith("hang:"):
        return bool(r.get("hang") or (r.get("died") or 0) < 0)
    if r.get("hang"):
        return True
    if "died" in r:
        return r["died"] is not None and r["died"] < 0
    if label in r.get("failed", []):
        return True
    if r.get("diverged") or r.get("error"):
        return False
    if r.get("panic") is not None and not r.get("panic_label", "").startswith("ok:"):
        return core.startswith("panic:") or core == r.get("panic_label")
    return False


class Runs:
    """The engine processes of one check, all of which can be ended early."""

    def __init__(self, deadline):
        self.deadline, self.procs, self.lock, self.stopped = deadline, set(), threading.Lock(), False

    def stop(self):
        with self.lock:
            self.stopped = True
            for p in self.procs:
                p.kill()

    def run(self, exe, ll, j, out, tier):
        t0 = time.time()
        left = self.deadline - t0
        limit = min(float(j.get("time", 900 if tier == "thorough" else 420)), left)
        if self.stopped or limit < 5:
            return {"entry": j["entry"], "crash": "not started: time limit reached", "limit": True, "wall_s": 0.0}
        cmd = [exe, ll, "--entry", j["entry"], "--out", out, "--params", ",".join(str(x) for x in j.get("params", [])),
               "--time", str(round(limit)), "--seed", str(seed()), "--traces", str(j.get("traces", 3)),
               "--src", build.REPO + "/src", "--z3-timeout", str(j.get("z3", 20000)), "--steps", str(j.get("steps", 20000000))]
        if os.path.exists(out):
            os.remove(out)
        with open(out + ".log", "w") as log:
            with self.lock:
                if self.stopped:
                    return {"entry": j["entry"], "crash": "stopped", "limit": True, "wall_s": 0.0}
                p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT)
                self.procs.add(p)
            late = False
            try:
                p.wait(limit + 60)  # a single solver query may overrun
            except subprocess.TimeoutExpired:
                late = True
                p.kill()
                p.wait()
            with self.lock:
                self.procs.discard(p)
        if p.returncode != 0 or not os.path.exists(out):
            with open(out + ".log", errors="replace") as f:
                text = f.read()[-1500:]
            return {"entry": j["entry"], "crash": "time limit reached" if late else "stopped" if self.stopped else "engine exit %d: %s" % (p.returncode, text),
                    "limit": late or self.stopped or p.returncode < 0, "wall_s": time.time() - t0}
        with open(out) as f:
            return json.load(f)


def known_findings(pid):
    out = []
    p = os.path.join(V, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            for k in json.load(f)["findings"]:
                if k["property"] == pid:
                    out.append(k)
    return out


def fmt_inputs(inp, limit=40):
    s = " ".join("%s=%s" % (n, v) for n, v in inp[:limit])
    return s + (" ..." if len(inp) > limit else "")


def check(pid, tier):
    t0 = time.time()
    P = PROPS[pid]
    jobs = [j for j in P["jobs"] if tier == "thorough" or not j.get("thorough")]
    feats = sorted({j.get("part", P["part"]) for j in jobs})
    errors = []
    try:
        exe = build.engine()
        with cf.ThreadPoolExecutor(2) as ex:
            nat = ex.submit(build.native)
            lls = {f: build.ir(f) for f in feats}
            replay_exe, _ = nat.result()
    except (build.BuildError, subprocess.TimeoutExpired) as e:
        print("BUILD ERROR: %s" % e)
        return 2
    build_s = time.time() - t0
    tmp = os.path.join(build.OUT, "jobs-%s-%d" % (pid, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    rp = Replayer(replay_exe)
    known = known_findings(pid)
    viols, seen, known_hit = [], set(), []
    reached, checked, functions, traces_ok, samples = {}, {}, {}, 0, []
    tot = dict(paths=0, branches=0, forks=0, steps=0, q_sat=0, q_unsat=0, q_unknown=0, q_cached=0, q_fallback=0, checks=0, checks_symbolic=0, solver_s=0.0, infeasible=0)
    per = {}
    undecided = {}
    res = [None] * len(jobs)
    runs = Runs(t0 + (DEADLINE_THOROUGH if tier == "thorough" else DEADLINE))
    # longest first
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("cost", 1))
    pool = cf.ThreadPoolExecutor(MAXPAR)
    fs = {pool.submit(runs.run, exe, lls[jobs[i].get("part", P["part"])][0], jobs[i], os.path.join(tmp, "%d.json" % i), tier): i for i in order}
    hangs = 0
    for fut in cf.as_completed(fs):
        j = jobs[fs[fut]]
        r = res[fs[fut]] = fut.result()
        name = j["entry"] + ("(%s)" % ",".join(map(str, j["params"])) if j.get("params") else "")
        if "crash" in r:
            if r.get("limit"):
                undecided[name] = r["crash"]
            else:
                errors.append("%s: %s" % (name, r["crash"]))
            continue
        if not r["complete"]:
            if any("partition" in k for k in r["incomplete"]):
                errors.append("%s: %s" % (name, r["incomplete"]))
            undecided[name] = str(r["incomplete"])
        for k in tot:
            tot[k] += r[k]
        for k, v in r["reached"].items():
            reached[j["entry"] + ":" + k] = reached.get(j["entry"] + ":" + k, 0) + v
        for k, v in r["checked"].items():
            checked[k] = checked.get(k, 0) + v
        for k, v in r["functions"].items():
            functions[k] = max(functions.get(k, 0), v)
        a = per.setdefault(j["entry"], dict(jobs=0, paths=0, queries=0, solver_s=0.0, wall_s=0.0))
        a["jobs"] += 1
        a["paths"] += r["paths"]
        a["queries"] += r["q_sat"] + r["q_unsat"]
        a["solver_s"] = round(a["solver_s"] + r["solver_s"], 3)
        a["wall_s"] = round(a["wall_s"] + r["wall_s"], 3)
        bad_labels = set()
        for v in r["violations"]:
            kn = [k for k in known if k["harness"] == j["entry"] and k["label"] == v["label"]]
            key = (j["entry"], v["label"])
            bad_labels.add(v["label"])
            if key in seen:
                continue
            if hangs >= 4:
                continue
            n = rp.job(j["entry"], j.get("params", []), v["inputs"])
            hangs += 1 if n.get("hang") else 0
            if not reproduces(v["label"], n):
                if v is r["violations"][-1] or all(w["label"] != v["label"] for w in r["violations"][r["violations"].index(v) + 1:]):
                    errors.append("%s: counterexample for '%s' does not reproduce natively: %s -> %s" % (name, v["label"], fmt_inputs(v["inputs"]), json.dumps(n)[:400]))
                continue
            seen.add(key)
            if kn:
                known_hit.append((kn[0], v, j))
            else:
                viols.append((v, j, n))
                if len(viols) == 1:
                    # a violation is found: others may follow for a while, the rest is not needed
                    threading.Timer(GRACE, runs.stop).start()
        for t in r["traces"] if not viols and hangs < 4 else []:
            if time.time() - t0 > LAST:
                break
            n = rp.job(j["entry"], j.get("params", []), t["inputs"])
            obs = [[a, b] for a, b in t["obs"]]
            bad = n.get("error") or n.get("diverged") or n.get("hang") or "died" in n or (n.get("panic") and not n.get("panic_label", "").startswith("ok:"))
            bad = bad or [f for f in n.get("failed", [])] or n.get("obs") != obs
            if bad:
                errors.append("%s: a passing path disagrees with the native run: inputs %s expected obs %s got %s" % (name, fmt_inputs(t["inputs"]), obs[:20], json.dumps(n)[:600]))
            else:
                traces_ok += 1
                if len(samples) < 12 and (not samples or samples[-1]["harness"] != name):
                    samples.append({"harness": name, "inputs": {a: b for a, b in t["inputs"][:24]}, "observed": {a: b for a, b in t["obs"][:24]}})
    rp.kill()
    pool.shutdown()
    for f in os.listdir(tmp):
        os.remove(os.path.join(tmp, f))
    os.rmdir(tmp)
    want = set()
    for j, r in zip(jobs, res):
        if "crash" in r or not r["complete"] or viols:
            continue
        for k in j.get("reach", []):
            want.add(j["entry"] + ":" + k)
    for k in sorted(want):
        if not reached.get(k):
            errors.append("vacuous: '%s' was never reached" % k)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed(), "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["branches"], "traces_validated_against_impl": traces_ok,
            "samples": samples or [{"note": "no completed path"}],
            "explanation": "states = completed symbolic path classes of the compiled code (each covers every input satisfying its path condition); transitions = symbolic branch decisions; every assertion on every path decided by the SMT solver",
            "bounds": P["bounds"], "functions_encoded": functions, "assertions": checked, "reached": reached,
            "queries": {"sat": tot["q_sat"], "unsat": tot["q_unsat"], "unknown": tot["q_unknown"], "answered_from_cache": tot["q_cached"], "fallback_solver": tot["q_fallback"]},
            "assertion_checks": tot["checks"], "assertion_checks_symbolic": tot["checks_symbolic"], "solver_s": round(tot["solver_s"], 3),
            "instructions": tot["steps"], "forks": tot["forks"], "solver": next((r["solver"] for r in res if "solver" in r), "?"),
            "harnesses": per, "slowest_jobs": [[n, w] for w, n in sorted(((r.get("wall_s", 0), j["entry"] + str(tuple(j.get("params", [])))) for j, r in zip(jobs, res)), reverse=True)[:6]], "ir": {f: lls[f][2] for f in feats}, "build_s": round(build_s, 1),
            "incomplete": errors, "undecided": undecided, "known_findings": [k["id"] for k, _, _ in known_hit],
        },
        "assumptions": P["assumes"] + COMMON_ASSUMES,
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, v, j in known_hit:
        print("KNOWN-FINDING: property=%s %s [%s: %s]" % (pid, k["what"], k["id"], fmt_inputs(v["inputs"], 12)))
    rc = 0
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    for i, (v, j, n) in enumerate(viols):
        path = os.path.join(V, "replays", "%s-%d.json" % (pid, i))
        with open(path, "w") as f:
            json.dump({"property": pid, "harness": j["entry"], "params": j.get("params", []), "label": v["label"], "at": v["at"], "inputs": v["inputs"], "native": n}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s: '%s' %s with %s" % (j["entry"], v["label"], ("at " + v["at"]) if v["at"] else "", fmt_inputs(v["inputs"])))
        rc = 1
    for e in errors:
        print("ERROR: %s" % e)
    for n, e in sorted(undecided.items()):
        print("UNDECIDED: %s: %s" % (n, e[:400]))
    print("%s %s: %d jobs, %d paths, %d branches, %d queries (%.1f s solver), %d assertions, %d traces replayed, %.1f s (build %.1f)" % (
        pid, tier, len(jobs), tot["paths"], tot["branches"], tot["q_sat"] + tot["q_unsat"], tot["solver_s"], tot["checks"], traces_ok, time.time() - t0, build_s))
    # within the limits of time and of the engine some of the exploration may stay open: that is
    # reported above and in the evidence; with most of it open there is no verdict
    if rc == 0 and (errors or 2 * len(undecided) > len(jobs)):
        rc = 2
    return rc


COMMON_ASSUMES = [
    "code decided: optimized LLVM IR that rustc emits for the dev-profile semantics (overflow checks on) of /repo's current source, x86_64",
    "allocation never fails; HashMap hash keys are fixed (iteration order of one key pair)",
    "serdo's SQLite store is replaced by an in-memory store with the same serialize/deserialize data path during symbolic execution; counterexamples and sampled traces are replayed against the real serdo",
    "the engine, Z3 and rustc's optimizer are trusted; sampled paths are replayed natively and compared on every run",
]


def replay(path):
    with open(path) as f:
        d = json.load(f)
    exe, _ = build.native()
    rp = Replayer(exe)
    r = rp.job(d["harness"], d["params"], d["inputs"])
    rp.kill()
    print(json.dumps(r, indent=1))
    ok = reproduces(d["label"], r)
    print("reproduced: %s" % d["label"] if ok else "not reproduced")
    return 1 if ok else 0


def setup():
    t0 = time.time()
    build.engine()
    with cf.ThreadPoolExecutor(2) as ex:
        nat = ex.submit(build.native)
        for f in sorted({j.get("part", P["part"]) for P in PROPS.values() for j in P["jobs"]}):
            build.ir(f)
        nat.result()
    print("setup done in %.1f s" % (time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        return setup()
    if a[:1] == ["replay"]:
        return replay(a[1])
    if a[:1] == ["check"]:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        return check(a[1], tier)
    if a[:1] == ["all"]:
        tier = a[1] if len(a) > 1 else "quick"
        rc = 0
        for p in PROPS:
            r = check(p, tier)
            print("== %s exit %d" % (p, r), flush=True)
            rc = max(rc, r)
        return rc
    print(__doc__)
    return 3


if __name__ == "__main__":
    try:
        rc = main()
    except build.BuildError as e:
        print("BUILD ERROR: %s" % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
