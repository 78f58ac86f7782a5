#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   search one property; writes evidence/<id>.json
check.py replay FILE                 re-execute a replay file and print what happens
check.py determinism [N]             run N seeds of every profile twice in different processes and compare

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": violated.
"""
import os, sys, json, time, re, subprocess, copy, random, collections, glob, shutil, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/lib")
import build as B
from props import PROPS, STUBS
NS = "%010d" % (os.getpid() % 10**10)
WORKERS = int(os.environ.get("VERIF_JOBS", "8"))

def env():
    return dict(os.environ, SIM_NS=NS)

def norm(s):
    """violation class: text without numbers, addresses and hashes"""
    s = (s or "").split("\n")[0]
    s = re.sub(r"0x[0-9a-f]+|[0-9a-f]{16,}", "#", s)
    s = re.sub(r"\{.*", "", s)
    s = re.sub(r"-?\d+", "#", s)
    return s[:160]

def bugclass(viol):
    """what must stay the same while shrinking"""
    n = norm(viol)
    return n[:70]

def exec_plan(exe, rep, slot, free=False, save=None, log=False, timeout=150):
    f = "/dev/shm/skalesim.%s.%s.in.json" % (NS, slot)
    with open(f, "w") as h: json.dump(rep, h)
    cmd = [exe, "exec", f, "--slot", slot] + (["--free"] if free else []) + (["--save", save] if save else []) + (["--log"] if log else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env())
    except subprocess.TimeoutExpired:
        return {"outcome": "machinery", "viol": "timeout", "hash": "", "ilv": ""}, ""
    finally:
        if os.path.exists(f): os.unlink(f)
    lines = p.stdout.split("\n", 1)
    try:
        return json.loads(lines[0]), (lines[1] if len(lines) > 1 else "")
    except Exception:
        return {"outcome": "machinery", "viol": "no result: " + p.stderr[-300:], "hash": "", "ilv": ""}, ""

def failed(r): return r.get("outcome") in ("violation", "hang")

# ---------------------------------------------------------------- shrinking
def expand(plan, pointers):
    """concrete paths (tuples of keys) of the shrinkable arrays"""
    out = []
    def walk(o, parts, path):
        if not parts:
            if isinstance(o, list): out.append(path)
            return
        k = parts[0]
        if k == "*":
            if isinstance(o, list):
                for i in range(len(o)): walk(o[i], parts[1:], path + (i,))
        elif isinstance(o, dict) and k in o: walk(o[k], parts[1:], path + (k,))
    for p in pointers: walk(plan, p.strip("/").split("/"), ())
    return out
def get(o, path):
    for k in path: o = o[k]
    return o

class Shrinker:
    def __init__(self, exe, rep, cls, deadline):
        self.exe, self.cls, self.deadline = exe, cls, deadline
        self.best = rep
        self.tries = 0
        self.lock = threading.Lock()
    def left(self): return self.deadline - time.time()
    def attempt(self, cands, free):
        """tries several candidates in parallel; returns the first (in order) that still fails"""
        res = [None] * len(cands)
        def one(i):
            if self.left() <= 0: return
            save = "/dev/shm/skalesim.%s.s%d.out.json" % (NS, i)
            r, _ = exec_plan(self.exe, cands[i], "s%d" % i, free=free, save=save, timeout=100)
            try:
                if failed(r) and bugclass(r.get("viol")) == self.cls:
                    res[i] = json.load(open(save))
            except Exception: pass
            if os.path.exists(save): os.unlink(save)
        th = [threading.Thread(target=one, args=(i,)) for i in range(len(cands))]
        for t in th: t.start()
        for t in th: t.join()
        self.tries += len(cands)
        for r in res:
            if r: return r
        return None
    def batches(self, gen, free):
        """gen yields candidate reps; returns True when one was accepted"""
        buf = []
        for c in gen:
            if self.left() <= 0: return False
            buf.append(c)
            if len(buf) == WORKERS:
                r = self.attempt(buf, free); buf = []
                if r: self.best = r; return True
        if buf and self.left() > 0:
            r = self.attempt(buf, free)
            if r: self.best = r; return True
        return False
    def shrink_devs(self):
        n = 2
        while self.left() > 0:
            devs = self.best.get("devs", [])
            if not devs: return
            if n > len(devs): return
            size = max(1, len(devs) // n)
            def gen():
                for i in range(0, len(devs), size):
                    yield {"plan": self.best["plan"], "devs": devs[:i] + devs[i + size:]}
            if self.batches(gen(), False): n = max(2, n - 1)
            else:
                if size == 1: return
                n = min(len(devs), n * 2)
    def shrink_plan(self, free):
        progress = True
        while progress and self.left() > 0:
            progress = False
            def gen():
                plan = self.best["plan"]
                # whole incarnations (never the first: it may be the reference)
                for i in range(len(plan["incs"]) - 1, 0, -1):
                    q = copy.deepcopy(plan); del q["incs"][i]
                    yield {"plan": q, "devs": []}
                paths = expand(plan, plan.get("min", ["/incs/*/ops"]) + ["/incs/*/faults"])
                for chunk in (0.5, 0.25, 0):
                    for path in paths:
                        arr = get(plan, path)
                        if not arr: continue
                        size = max(1, int(len(arr) * chunk)) if chunk else 1
                        if chunk and size < 2: continue
                        for s in range(len(arr) - size, -1, -size):
                            q = copy.deepcopy(plan); a = get(q, path); del a[s:s + size]
                            yield {"plan": q, "devs": []}
            progress = self.batches(gen(), free)
    def run(self):
        # 1. does it fail without any schedule deviation at all?
        r = self.attempt([{"plan": self.best["plan"], "devs": []}], False)
        if r:
            self.best = r
            self.shrink_plan(False)
        else:
            self.shrink_devs_quick()
            self.shrink_plan(True)
            self.shrink_devs()
        self.best["devs"] = self.best.get("devs", [])
        return self.best
    def shrink_devs_quick(self): pass

# ---------------------------------------------------------------- known findings
def load_findings():
    out = []
    p = VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) replay=(\S+) class=\[(.*?)\] (.*)", l.strip())
            if m: out.append(dict(prop=m[1], replay=m[2], cls=m[3], text=m[4]))
    return out

# ---------------------------------------------------------------- search
def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    exes = {}
    for name in sorted(set(p.get("exe", "sim") for p in cfg["profiles"])):
        e = B.build(name, quiet=True)
        if not e:
            print("cannot build"); return 2
        exes[name] = e
    build_s = time.time() - t0
    budget = cfg.get("thorough_s", 600) if tier == "thorough" else cfg.get("quick_s", 20 if prop in ("C03", "C05", "C07") else 15)
    if os.environ.get("VERIF_SECONDS"): budget = float(os.environ["VERIF_SECONDS"])
    findings = [f for f in load_findings() if f["prop"] == prop]
    known_hits = 0
    for f in findings:
        rep = json.load(open(VERIF + "/" + f["replay"]))
        exe = exes.get(rep["plan"].get("exe", "sim")) or B.build(rep["plan"].get("exe", "sim"), quiet=True)
        r, _ = exec_plan(exe, rep, "known")
        if failed(r) and f["cls"] in norm(r.get("viol")):
            print("KNOWN-FINDING: property=%s %s" % (prop, f["text"])); known_hits += 1
        else:
            print("note: known finding no longer fails: %s (%s)" % (f["text"], r.get("outcome")))
    faildir = VERIF + "/build/fails/%s-%s" % (prop, NS)
    os.makedirs(faildir, exist_ok=True)
    stats = collections.Counter(); faults = collections.Counter(); probes = collections.Counter(); outcomes = collections.Counter()
    ilv = set(); hashes = set(); per = collections.Counter(); samples = []; other = {}
    bad = []       # (profile, record)
    machinery = []
    stop = threading.Event()
    lock = threading.Lock()
    total_w = sum(p.get("w", 1) for p in cfg["profiles"])
    search0 = time.time()
    def worker(i):
        for k, p in enumerate(cfg["profiles"]):
            if stop.is_set(): return
            secs = budget * p.get("w", 1) / total_w
            lim = p.get("limit", 10**9)
            cmd = [exes[p.get("exe", "sim")], "batch", p["scn"], prop, p["profile"], tier, str(seed * 1000000 + i), str(WORKERS), str((lim - i + WORKERS - 1) // WORKERS), "%.3f" % secs, "w%d" % i, faildir, "0"]
            pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=env())
            for line in pr.stdout:
                try: r = json.loads(line)
                except Exception: continue
                with lock:
                    per[p["scn"] + "/" + p["profile"]] += 1
                    outcomes[r["outcome"]] += 1
                    for a in ("steps", "sw", "pre", "us", "disk"): stats[a] += r.get(a, 0)
                    faults.update(r.get("faults", {})); probes.update(r.get("probes", {}))
                    if r.get("ilv"): ilv.add(r["ilv"]); hashes.add(r["hash"])
                    if len(samples) < 4 and r["outcome"] == "ok" and r.get("faults"): samples.append({"scenario": p["scn"], "profile": p["profile"], "seed": r["seed"], "steps": r["steps"], "context_switches": r["sw"], "faults": r["faults"], "hash": r["hash"]})
                    if r["outcome"] in ("violation", "hang"):
                        who = r.get("viol", "").split(":", 1)[0]
                        if who != prop:
                            if who not in other: other[who] = "%s %s seed %d: %s" % (p["scn"], p["profile"], r["seed"], r["viol"][:300])
                            continue
                        if r["outcome"] == "hang":
                            # a stalled machine looks the same: only believe it when it happens again
                            try:
                                rep = json.load(open(faildir + "/fail-%s-%s-%d.json" % (p["scn"], p["profile"], r["seed"])))
                                again = exec_plan(exes[p.get("exe", "sim")], rep, "h%d" % i, free=True)[0]
                            except Exception: again = {}
                            if not failed(again): outcomes["hang that did not happen again"] += 1; continue
                        if "step budget" in r.get("viol", ""):
                            # a long but finite execution is none: only believe it with five times the budget
                            try:
                                rep = json.load(open(faildir + "/fail-%s-%s-%d.json" % (p["scn"], p["profile"], r["seed"])))
                                rep["plan"].setdefault("sched", {})["maxsteps"] = 30000000; rep["devs"] = []
                                again = exec_plan(exes[p.get("exe", "sim")], rep, "h%d" % i, free=True)[0]
                            except Exception: again = {}
                            if not failed(again) and again.get("viol") != "timeout": outcomes["needed more than the step budget"] += 1; continue
                        bad.append((p, r)); stop.set()
                    elif r["outcome"] == "machinery":
                        machinery.append((p, r))
                        if len(machinery) > 20: stop.set()
                if stop.is_set(): break
            if stop.is_set(): pr.terminate()
            pr.stdout.close(); pr.wait()
    th = [threading.Thread(target=worker, args=(i,)) for i in range(WORKERS)]
    for t in th: t.start()
    for t in th: t.join()
    search_s = time.time() - search0
    for d in glob.glob("/dev/shm/skalesim.%s.*" % NS): shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.unlink(d)
    code = 0; nviol = 0; vrec = None
    if bad:
        code, vrec = report(prop, tier, exes, bad, faildir)
        if code == 1: nviol = 1
    for w, v in sorted(other.items()): print("note: also seen: %s" % (v if isinstance(v, str) else w))
    runs = sum(per.values())
    if machinery and code == 0:
        print("error: %d of %d runs could not be completed by the simulator, e.g. %s seed %s: %s" % (len(machinery), runs, machinery[0][0]["profile"], machinery[0][1]["seed"], str(machinery[0][1].get("viol"))[:300]))
        code = 3
    if code == 0 and runs < 8:
        print("error: only %d runs" % runs); code = 3
    # rare conditions that must be reached (otherwise the run says little); only a note
    missing = [p for p in cfg.get("probes", []) if not probes.get(p)]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
          "coverage": {
              "evaluations": runs, "distinct_nontrivial": len(ilv),
              "rule": "one evaluation = one simulated execution of a generated plan (workload, schedule policy, faults) decided by one seed; distinct = different hash of the whole context-switch sequence" + ("; " + cfg["rule"] if cfg.get("rule") else ""),
              "samples": samples or [{"seed": seed * 1000000}],
              "runs_by_profile": dict(per), "runs_per_hour": int(runs / max(search_s, 0.1) * 3600), "seeds_per_hour": int(runs / max(search_s, 0.1) * 3600),
              "outcomes": dict(outcomes), "distinct_execution_hashes": len(hashes),
              "simulated_seconds": stats["us"] / 1e6, "scheduling_points": stats["steps"], "context_switches": stats["sw"], "forced_preemptions": stats["pre"], "disk_operations": stats["disk"],
              "faults_injected": dict(faults), "conditions_reached": dict(probes), "conditions_not_reached": missing,
              "known_findings_reproduced": known_hits,
              "real_components": cfg.get("real", []), "stub_components": cfg.get("stub", STUBS)},
          "assumptions": cfg.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    if vrec: ev["coverage"]["violation"] = vrec
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d runs in %.0f s (build %.0f s), %d distinct interleavings, faults %s" % (prop, tier, runs, search_s, build_s, len(ilv), dict(faults)))
    if missing: print("note: conditions not reached: %s" % missing)
    if code != 1: shutil.rmtree(faildir, ignore_errors=True)
    return code

def report(prop, tier, exes, bad, faildir):
    """gate, shrink and write the replay file"""
    why = []; gone = 0
    for p, r in bad[:6]:
        exe = exes[p.get("exe", "sim")]
        f = faildir + "/fail-%s-%s-%d.json" % (p["scn"], p["profile"], r["seed"])
        try: rep = json.load(open(f))
        except Exception as e:
            why.append("no failure record (%s)" % e); continue
        cls = bugclass(r["viol"])
        # gate 1: the same seed, schedule drawn again, twice; gate 2: the recorded schedule in a fresh process, twice
        a, _ = exec_plan(exe, rep, "g0", free=True); b, _ = exec_plan(exe, rep, "g0", free=True)
        c, _ = exec_plan(exe, rep, "g0"); d, _ = exec_plan(exe, rep, "g0")
        ok = all(failed(x) and bugclass(x.get("viol")) == cls for x in (a, b, c, d)) and a["hash"] == b["hash"] and c["hash"] == d["hash"]
        if not ok and failed(a) and failed(b) and bugclass(a.get("viol")) == cls == bugclass(b.get("viol")):
            # the code under test itself behaves differently from run to run (e.g. uninitialised memory) but fails every time
            print("note: the failing execution is not bit-identical from run to run")
            ok = True
        if not ok and not any(failed(x) for x in (a, b, c, d)): gone += 1
        if not ok:
            why.append("seed %d does not reproduce: %s" % (r["seed"], [(x.get("outcome"), x.get("hash"), str(x.get("viol"))[:100]) for x in (a, b, c, d)])); continue
        sh = Shrinker(exe, {"plan": rep["plan"], "devs": rep["devs"]}, cls, time.time() + (300 if tier == "thorough" else 75))
        n0 = len(rep["devs"]); sz0 = len(json.dumps(rep["plan"]))
        best = sh.run()
        x, log = exec_plan(exe, best, "g0", log=True); y, _ = exec_plan(exe, best, "g0")
        if not (failed(x) and failed(y) and x["hash"] == y["hash"]):
            best = {"plan": rep["plan"], "devs": rep["devs"]}; x, log = exec_plan(exe, best, "g0", log=True)
        best["plan"]["exe"] = p.get("exe", "sim")
        out = {"property": prop, "violation": x.get("viol"), "seed": r["seed"], "hash": x["hash"], "how": "python3 lib/check.py replay <this file>", "plan": best["plan"], "devs": best.get("devs", []), "log_tail": log[-6000:].split("\n")}
        os.makedirs(VERIF + "/build/replay", exist_ok=True)
        path = VERIF + "/build/replay/%s-%s-%s-%d.json" % (prop, p["scn"], p["profile"], r["seed"])
        with open(path, "w") as h: json.dump(out, h, indent=1)
        print("violation: %s" % (x.get("viol") or "")[:1500])
        print("seed %d, scenario %s/%s; shrunk from %d to %d schedule deviations and from %d to %d bytes of plan in %d attempts" % (r["seed"], p["scn"], p["profile"], n0, len(out["devs"]), sz0, len(json.dumps(best["plan"])), sh.tries))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1, {"seed": r["seed"], "text": (x.get("viol") or "")[:500], "replay": path}
    if gone == len(bad) and gone < 3:
        # one seed is one execution: what does not come back when it is executed again came from the host (memory, signals)
        print("note: %d run(s) failed once and passed four times when executed again: " % gone + " | ".join(why))
        return 0, None
    print("error: violation(s) seen but not reproducible: " + " | ".join(why))
    return 3, None

def replay(path):
    rep = json.load(open(path))
    exe = B.build(rep["plan"].get("exe", "sim"), quiet=True)
    r, log = exec_plan(exe, rep, "g0", log=True)
    print(log[-8000:]); print(json.dumps(r, indent=1))
    same = r.get("hash") == rep.get("hash")
    print("same execution as recorded" if same else "execution differs from the recorded one (%s, %s)" % (r.get("hash"), rep.get("hash")))
    if failed(r):
        print("VIOLATION property=%s replay=%s" % (rep.get("property", r.get("viol", "?").split(":")[0]), path)); return 1
    return 0

def determinism(n):
    """every profile, n seeds: executed twice in fresh processes (same scratch directory names: all hashes must agree),
    and once more spread differently over the workers (other scratch directory names: the interleavings must agree)"""
    badn = tot = 0
    for name in sorted(set((p.get("exe", "sim"), p["scn"], p["profile"]) for c in PROPS.values() for p in c["profiles"])):
        exe = B.build(name[0], quiet=True)
        res = [{}, {}, {}]
        def go(rep, i, stride, slot):
            o = subprocess.run([exe, "batch", name[1], "C00", name[2], "quick", str(5000 + i), str(stride), str((n - i + stride - 1) // stride), "600", slot, "/tmp", "0"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env()).stdout
            for l in o.splitlines():
                r = json.loads(l); res[rep][r["seed"]] = (r["hash"], r["outcome"], r.get("ilv"), r.get("steps"))
        for rep, stride in ((0, 8), (1, 8), (2, 5)):
            th = [threading.Thread(target=go, args=(rep, i, stride, "d%d" % i if rep < 2 else "e%d" % i)) for i in range(stride)]
            for t in th: t.start()
            for t in th: t.join()
        diff = [s for s in res[0] if res[0][s] != res[1].get(s)] + [s for s in res[0] if res[0][s][1:] != res[2].get(s, (0,))[1:]]
        tot += len(res[0]); badn += len(diff)
        print("%s: %d seeds, %d differ %s" % (name, len(res[0]), len(diff), diff[:5]), flush=True)
    return 1 if badn else 0

if __name__ == "__main__":
    try:
        if sys.argv[1] == "replay": sys.exit(replay(sys.argv[2]))
        if sys.argv[1] == "determinism": sys.exit(determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 60))
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    finally:
        for d in glob.glob("/dev/shm/skalesim.%s.*" % NS): shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.unlink(d)
