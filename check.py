#!/usr/bin/env python3
"""check.py <property>            decide one property by seeded simulation (VERIF_SEED, VERIF_TIER)
   check.py --replay <file>       re-run one recorded execution exactly"""
import os, sys, json, time, subprocess, re, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build as B
import plans

JOBS = int(os.environ.get("VERIF_JOBS", "8"))
REAL = ["src/hdbscan.c", "src/hdbscan.cpp", "src/distance.c", "src/undirected_graph.c", "src/cluster.c", "src/outlier_score.c", "src/constraint.c", "modules/collections/src/*.c", "modules/utils/src/*.c", "libstdc++ containers as used by the C++ interface"]
STUB = ["libgomp (teams, work sharing, barriers, criticals, atomics): simulated with a seeded scheduler", "ThreadSanitizer/ASan run time: simulator's own race detector and shadow memory", "malloc/free/new/delete: checked arena with seeded contents, placement, reuse and failures", "stdio and files: in-memory disk with faults", "time/localtime: simulated clock", "qsort: three legal implementations"]

def die(msg, code=3):
    sys.stderr.write("check error: " + msg + "\n"); print("CHECK-ERROR " + msg); sys.exit(code)

def run_one(exe, path, timeout=120):
    r = subprocess.run([exe, "replay", "--file", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    try: return json.loads(r.stdout)
    except Exception: return {"status": -1, "cls": "", "detail": "no answer from the simulator: %r" % r.stdout[-300:], "trace": "", "result": "", "steps": 0}

class Batch:
    """evaluates candidate cases in parallel, each in a process of its own"""
    def __init__(self, exe, tmp, n): self.exe, self.tmp, self.n, self.k = exe, tmp, n, 0
    def _one(self, a):
        i, text = a
        p = os.path.join(self.tmp, "cand%d" % i)
        with open(p, "w") as f: f.write(text)
        try: return run_one(self.exe, p, 60)
        except subprocess.TimeoutExpired: return {"status": -1, "cls": "timeout"}
        finally: os.unlink(p)
    def classes(self, texts):
        self.k += len(texts)
        with ThreadPoolExecutor(self.n) as ex: return [(r["status"], r["cls"]) for r in ex.map(self._one, [(self.k * 1000 + i, t) for i, t in enumerate(texts)])]

def ddmin(lines, removable, test_many, deadline):
    """greedy chunked reduction; test_many(list of line lists) -> list of bool"""
    n = 2
    idx = [i for i, l in enumerate(lines) if removable(l)]
    while idx and time.time() < deadline:
        n = min(n, len(idx)); size = max(1, -(-len(idx) // n))
        chunks = [idx[i:i + size] for i in range(0, len(idx), size)]
        done = False
        for g in range(0, len(chunks), 16):
            grp = chunks[g:g + 16]; cands = []
            for c in grp:
                s = set(c); cands.append([l for i, l in enumerate(lines) if i not in s])
            ok = test_many(cands)
            for o, cand in zip(ok, cands):
                if o: lines = cand; done = True; break
            if done or time.time() > deadline: break
        idx = [i for i, l in enumerate(lines) if removable(l)]
        if done: n = max(2, n - 1)
        elif size == 1: break
        else: n = min(len(idx), n * 2)
    return lines

def minimise(exe, text, cls, tmp, budget):
    deadline = time.time() + budget; b = Batch(exe, tmp, JOBS)
    same = lambda cands: [s == 2 and c == cls for s, c in b.classes(["\n".join(x) + "\n" for x in cands])]
    lines = [l for l in text.splitlines() if l.strip() and not l.startswith("#")]
    rem = lambda l: l.split(" ", 1)[0] in ("op", "pt", "iofault")
    lines = ddmin(lines, rem, same, time.time() + budget * 0.45)
    # the schedule as an explicit list of switches
    p = os.path.join(tmp, "base.case"); q = os.path.join(tmp, "explicit.case")
    open(p, "w").write("\n".join(lines) + "\n")
    subprocess.run([exe, "explicit", "--file", p, "--out", q], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if os.path.exists(q):
        ex = [l for l in open(q).read().splitlines() if l.strip()]
        if same([ex])[0]:
            lines = ddmin(ex, lambda l: l.split(" ", 1)[0] in ("sw", "team"), same, time.time() + budget * 0.3)
            lines = ddmin(lines, rem, same, min(deadline, time.time() + budget * 0.2))
    return "\n".join(lines) + "\n", b.k

def known_findings():
    out = []; p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) cls=(\S+) detail=(.*?) :: (.*)$", l.strip())
            if m: out.append(m.groups())
    return out

def replay(path):
    head = open(path).read(); m = re.search(r"^# variant (\S+)", head, re.M); v = m.group(1) if m else "default"
    exe = B.build_named(v); r = run_one(exe, path); print(json.dumps(r, indent=1))
    if r["status"] == 2:
        p = re.search(r"prop=(\S+)", head); print("VIOLATION property=%s replay=%s" % (p.group(1) if p else "?", os.path.abspath(path))); return 1
    return 0 if r["status"] == 1 else 3

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay": return replay(sys.argv[2])
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    if "--thorough" in sys.argv: tier = "thorough"
    plan = plans.PLANS[prop]; wall = plan["thorough_s" if tier == "thorough" else "quick_s"]
    if os.environ.get("VERIF_WALL"): wall = float(os.environ["VERIF_WALL"])
    count = plan.get("count", 10 ** 7)
    print("seed %d tier %s property %s" % (seed, tier, prop)); sys.stdout.flush()
    exes = B.build_all(list(dict.fromkeys(plan["variants"])))
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="run-", dir=B.OUT); rc = 3
    try: rc = explore(prop, tier, seed, plan, wall, count, exes, tmp, t0, tb)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return rc

def explore(prop, tier, seed, plan, wall, count, exes, tmp, t0, tb):
    procs = []; vs = plan["variants"]; per = {v: sum(1 for i in range(JOBS) if vs[i % len(vs)] == v) for v in exes}; seen = {v: 0 for v in exes}
    for i in range(JOBS):
        v = vs[i % len(vs)]; out = os.path.join(tmp, "w%d.json" % i)
        cmd = [exes[v], "work", "--prop", prop, "--seed", str(seed), "--from", str(seen[v]), "--step", str(per[v]), "--count", str(count), "--wall", str(wall), "--out", out, "--vdir", tmp, "--gate", "40", "--maxviol", "3", "--stop", os.path.join(tmp, "STOP")]
        seen[v] += 1; procs.append((v, out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    first = None; hard = time.time() + wall + 200
    while any(p.poll() is None for _, _, p in procs):
        time.sleep(0.2)
        if first is None and any(f.endswith(".case") for f in os.listdir(tmp)): first = time.time()
        if first and time.time() - first > 3: open(os.path.join(tmp, "STOP"), "w").close()
        if time.time() > hard:
            for _, _, p in procs: p.kill()
            die("a worker did not stop in time")
    S = {"cases": 0, "faults": {}, "classes": {}, "traces": set(), "results": set(), "samples": [], "viol": [], "per": {}}; add = ["cases", "nontrivial", "oracle_checks", "steps", "switches", "regions", "multi_regions", "multi_cases", "allocs", "races_checked", "sim_ms", "gates", "gatefail"]
    probes = 0; gateerr = ""; maxsteps = 0
    for v, out, p in procs:
        if p.returncode != 0: die("worker for %s ended with %s: %s" % (v, p.returncode, p.stderr.read()[-500:]))
        d = json.load(open(out))
        for k in add: S[k] = S.get(k, 0) + d[k]
        for k, x in d["faults"].items(): S["faults"][k] = S["faults"].get(k, 0) + x
        for k, x in d["classes"].items(): S["classes"][k] = S["classes"].get(k, 0) + x
        S["traces"].update(d["traces"]); S["results"].update(d["results"]); S["samples"] += d["samples"][:1]; S["viol"] += [(v, f) for f in d["violations"]]; S["per"][v] = S["per"].get(v, 0) + d["cases"]; probes |= d["probes"]; gateerr = gateerr or d["gateerr"]; maxsteps = max(maxsteps, d["max_steps"])
    # violations: one per class, confirmed, minimised, replayed in a fresh process
    listed, reported, seen_cls = [], [], set(); known = known_findings(); rdir = os.path.join(HERE, "replays"); budget = 60 if tier == "quick" else 180
    unrepeated = [] # candidates whose outcome hangs on something outside the simulation: only one that repeats exactly is reported
    for v, f in sorted(S["viol"], key=lambda x: os.path.getsize(x[1])):
        text = open(f).read(); r1 = run_one(exes[v], f); r2 = run_one(exes[v], f)
        if r1 != r2 or r1["status"] != 2:
            keep = os.path.join(HERE, "build", "unrepeated-%s.case" % prop); shutil.copyfile(f, keep)
            unrepeated.append("a violation of %s did not repeat (%s): %s / %s" % (v, " ".join(text.split("\n")[:2])[:600], r1, r2)); continue
        cls = r1["cls"]
        k = next((k for k in known if k[0] == prop and k[1] == cls and re.search(k[2], r1["detail"])), None)
        if k:
            if k not in listed: listed.append(k)
            continue
        if cls in seen_cls or len(reported) >= 2: continue
        seen_cls.add(cls)
        small, tried = minimise(exes[v], text, cls, tmp, budget if not reported else 20)
        os.makedirs(rdir, exist_ok=True); path = os.path.join(rdir, "%s-%s-%s.case" % (prop, v, re.sub(r"[^A-Za-z0-9]+", "_", cls)[:40]))
        def write(body, detail):
            with open(path, "w") as o: o.write("# property %s\n# variant %s\n# class %s\n# detail %s\n# seed %d, found as %s; replay with: python3 check.py --replay %s\n%s" % (prop, v, cls, detail.replace("\n", " | "), seed, os.path.basename(f), path, body))
        write(small, ""); a = run_one(exes[v], path); b = run_one(exes[v], path)
        if a != b or a["status"] != 2 or a["cls"] != cls:
            write("\n".join(l for l in text.splitlines() if not l.startswith("#")) + "\n", r1["detail"]); a = run_one(exes[v], path); b = run_one(exes[v], path)
            if a != b or a["status"] != 2: os.unlink(path); unrepeated.append("replay of %s does not reproduce" % path); seen_cls.discard(cls); continue
            small = text
        else: write(small, a["detail"])
        reported.append((cls, a["detail"], path, len(small.splitlines()), tried))
    wall_s = time.time() - t0; run_s = max(1e-6, wall_s - tb)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall_s, 2), "violations": len(reported), "coverage": {
        "evaluations": S["cases"], "distinct_nontrivial": len(S["results"]), "rule": plan["rule"], "samples": S["samples"][:6],
        "runs_per_variant": S["per"], "runs_per_hour_one_seed_each": int(S["cases"] / run_s * 3600), "build_s": round(tb, 1),
        "simulated_steps": S["steps"], "longest_run_steps": maxsteps, "simulated_time_ms": S["sim_ms"], "distinct_interleavings": len(S["traces"]), "interleaving_measure": "hash of the sequence of (step, fiber switched to) and of every team size granted", "context_switches": S["switches"], "parallel_regions": S["regions"], "parallel_regions_with_several_workers": S["multi_regions"], "runs_with_several_workers": S["multi_cases"], "allocations": S["allocs"], "race_checked_accesses": S["races_checked"],
        "faults_injected": S["faults"], "rare_conditions_reached": [n for i, n in enumerate(plan.get("probes", [])) if n and probes >> i & 1], "rare_conditions_missed": [n for i, n in enumerate(plan.get("probes", [])) if n and not probes >> i & 1], "oracle_comparisons": S["oracle_checks"], "determinism_gate": {"cases_run_twice": S["gates"], "differences": S["gatefail"]},
        "real_code": REAL + plan.get("real", []), "stubbed": STUB + plan.get("stub", []), "violation_classes": S["classes"]},
        "assumptions": plan.get("assumptions", plans.COMMON_ASSUMPTIONS)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as o: json.dump(ev, o, indent=1)
    print("%d simulated runs, %d distinct non-trivial, %d interleavings, %d oracle comparisons, %.1fs (build %.1fs)" % (S["cases"], len(S["results"]), len(S["traces"]), S["oracle_checks"], wall_s, tb))
    for k in listed: print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    for cls, detail, path, n, tried in reported:
        print("  class %s: %s\n  minimised to %d lines (%d candidates tried)" % (cls, detail[:600], n, tried)); print("VIOLATION property=%s replay=%s" % (prop, path))
    if reported: return 1
    if unrepeated: die(unrepeated[0])
    if S["gatefail"]: die("not deterministic: " + gateerr)
    if S["cases"] < plan.get("min_cases", 20): die("only %d simulated runs were completed" % S["cases"])
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except SystemExit: raise
    except Exception as e:
        import traceback; traceback.print_exc(); die("%s: %s" % (type(e).__name__, e))
