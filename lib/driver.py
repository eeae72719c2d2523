"""Runs the symbolic jobs of one property, replays the solver's counterexamples against the real code, writes the evidence."""
import importlib, json, os, random, re, sys, threading, time, traceback
import vp
from vp import Tree, Broken, replay, ROOT, BUILD, NCPU

DEADLINE = {"quick": 720.0, "thorough": 6 * 3600.0}


class Job:
    """One symbolic execution: a harness entry point with concrete parameters (language, size, mode ...)."""

    def __init__(self, harness, entry, params=(), desc="", time_s=300, merge=None, prio=None, cost=1, units=None, defs=(), env=True,
                 extra=(), maxviol=3, covers=(), show=None, msan=False):
        self.harness, self.entry, self.params, self.desc, self.time_s, self.merge, self.prio = harness, entry, tuple(params), desc, time_s, merge, prio
        self.cost, self.units, self.defs, self.env, self.extra, self.maxviol, self.covers, self.show = cost, units, tuple(defs), env, tuple(extra), maxviol, covers, show

    def key(self):
        return dict(harness=self.harness, entry=self.entry, params=list(self.params), units=self.units, defs=list(self.defs), env=self.env, desc=self.desc)


def known(pid):
    """known findings of this property: a job description and message, as regular expressions"""
    out = []
    p = os.path.join(ROOT, "known", "findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) at=/(.*?)/ msg=/(.*?)/ inputs=/(.*?)/ (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), re.compile(m.group(3)), re.compile(m.group(4)), m.group(5)))
    return out


def text_of(inputs):
    """readable rendering of the witness: byte strings and numbers"""
    arr, rest = {}, {}
    for k, v in inputs.items():
        m = re.match(r"^(.*)\.(\d+)$", k)
        if m:
            arr.setdefault(m.group(1), {})[int(m.group(2))] = v & 255
        else:
            rest[k] = v
    s = ["%s=%r" % (n, bytes(a.get(i, 0) for i in range(max(a) + 1))) for n, a in sorted(arr.items())]
    return " ".join(s + ["%s=%d" % kv for kv in sorted(rest.items())])


def run(pid, tier, seed):
    t0 = time.time()
    mod = importlib.import_module("checks." + pid)
    deadline = t0 + DEADLINE.get(tier, 720)
    tree = Tree()
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "assumptions": list(mod.ASSUMPTIONS), "violations": 0}
    found, knownhits, done, skipped, spurious = [], [], [], [], []
    stop = threading.Event()
    try:
        jobs = mod.jobs(tree, tier)
        for key in {(j.harness, tuple(j.units or ()), j.defs, j.env) for j in jobs}:
            tree.ir(key[0], list(key[1]) or None, key[2], key[3])
        t1 = time.time()
        jobs.sort(key=lambda j: -j.cost)
        kn = known(pid)

        def judge(j, r):
            done.append((j, r))
            seen = set()
            for v in r["violations"]:
                sig = (v["msg"], text_of(v["inputs"]))
                if sig in seen or stop.is_set():
                    continue
                seen.add(sig)
                exe = tree.native(j.harness, j.entry, j.units, j.defs, j.env)
                bad, txt = replay(exe, j.params, v["inputs"])
                if not bad and re.search(r"uninit|undef", v["msg"] + v["kind"]):
                    bad, txt = replay(tree.native(j.harness, j.entry, j.units, j.defs, j.env, msan=True), j.params, v["inputs"])
                if not bad:
                    spurious.append((j, v, txt))
                    continue
                hit = [k for k in kn if k[0].search(j.desc) and k[1].search(v["msg"]) and k[2].search(text_of(v["inputs"]))]
                if hit:
                    knownhits.append((j, v, hit[0][3]))
                else:
                    found.append((j, v, txt))
                    stop.set()

        # the executor's own inputs, a sample of them, are run on the natively compiled code as well
        j1 = jobs[len(jobs) // 2]
        natkey, conf = (j1.harness, j1.entry, j1.units, j1.defs, j1.env), []

        def conform():
            try:
                conf.append(tree.native(*natkey, plain=True))
            except Broken as e:
                conf.append(e)
        nthread = threading.Thread(target=conform)
        nthread.start()
        groups = {}
        for j in jobs:
            groups.setdefault((j.harness, tuple(j.units or ()), j.defs, j.env, j.merge, j.prio, j.extra), []).append(j)
        for g in sorted(groups.values(), key=len):
            j0, rest = g[0], []
            for j in g:
                (skipped if stop.is_set() or time.time() > deadline - 5 else rest).append(j)
            if rest:
                bc = tree.ir(j0.harness, j0.units, j0.defs, j0.env)
                for i, r in vp.osym_batch(bc, [(j.entry, j.params, j.time_s, j.maxviol) for j in rest], j0.merge, j0.prio, j0.extra, deadline, NCPU):
                    if r is None:
                        skipped.append(rest[i])
                    else:
                        judge(rest[i], r)
                        if stop.is_set():
                            break
        nthread.join()
        validated, disagree = 0, []
        if not found and isinstance(conf[0], str):
            pick = [(j, r) for j, r in done if r.get("witness") is not None and (j.harness, j.entry, j.units, j.defs, j.env) == natkey]
            random.Random(seed).shuffle(pick)
            for j, r in pick[:40]:
                bad, txt = replay(conf[0], j.params, r["witness"])
                if bad:
                    disagree.append({"job": j.desc, "input": text_of(r["witness"]), "native": txt[:300]})
                else:
                    validated += 1
    finally:
        tree.clean()

    for text in sorted({k[2] for k in knownhits}):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    rdir = os.path.join(BUILD, "replay", pid)
    os.makedirs(rdir, exist_ok=True)
    for i, (j, v, txt) in enumerate(found):
        path = os.path.join(rdir, "%d.json" % i)
        with open(path, "w") as f:
            json.dump({"property": pid, "job": j.key(), "message": v["msg"], "kind": v["kind"], "at": "%s:%s" % (v.get("function"), v.get("line")), "inputs": v["inputs"], "text": text_of(v["inputs"]), "native": txt}, f, indent=1)
        print("violated: %s\n  where: %s  (%s:%s)\n  input: %s\n  real code: %s" % (v["msg"], j.desc, v.get("function"), v.get("line"), text_of(v["inputs"]), txt.strip()[:600].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        break

    # ---- evidence
    inc = [j.desc + (": " + r["fatal"][:200] if r["fatal"] else "") for j, r in done if r["incomplete"] or r["fatal"]]
    fns, covers, asserts = set(), {}, {}
    for j, r in done:
        fns.update(r.get("functions", []))
        cv = r.get("covers", {})
        for c in (cv.items() if isinstance(cv, dict) else [(c, 1) for c in cv]):
            covers[c[0]] = covers.get(c[0], 0) + c[1]
    tot = lambda k: sum(r.get(k, 0) or 0 for _, r in done)
    samples = []
    for j, r in done[:3] + done[-2:]:
        samples.append({"job": j.desc, "params": list(j.params), "paths": r.get("paths"), "queries": r.get("z3_queries"), "seconds": round(r.get("seconds", 0), 2), "complete": not r["incomplete"]})
    need = getattr(mod, "COVERS", [])
    missing = [c for c in need if not covers.get(c)]
    ev["coverage"] = {
        "explanation": mod.EXPLANATION, "bounds": mod.bounds(tier), "states": tot("states"), "transitions": tot("instructions"),
        "traces_validated_against_impl": validated + len(found) + len(knownhits), "traces_disagreeing": disagree, "samples": samples, "slowest": [{"job": j.desc, "seconds": round(r.get("seconds") or 0, 2), "paths": r.get("paths")} for j, r in sorted(done, key=lambda x: -(x[1].get("seconds") or 0))[:6]],
        "jobs": len(done), "jobs_complete": len(done) - len(inc), "jobs_incomplete": inc[:50], "jobs_not_started": [j.desc for j in skipped][:50],
        "functions_encoded": sorted(f for f in fns if not f.startswith("v_")), "symbolic_paths": tot("paths"), "forks": tot("forks"), "merges": tot("merges"),
        "obligations": tot("obligations"), "discharged": tot("obligations_unsat"), "unknown": tot("obligations_unknown"), "assertions_evaluated": tot("asserts_evaluated"),
        "queries": tot("z3_queries"), "solver_seconds": round(tot("z3_seconds"), 2), "engine_seconds": round(tot("seconds"), 2), "build_seconds": round(tree.build_s, 2),
        "reached": covers, "required_reached": need, "not_reached": missing, "did_not_replay": [{"job": j.desc, "msg": v["msg"], "input": text_of(v["inputs"]), "native": t[:300]} for j, v, t in spurious][:20],
        "known_findings": sorted({k[2] for k in knownhits}),
    }
    ev["violations"] = len(found)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d jobs, %d complete, %d incomplete, %d not started, %d paths, %d queries, %.1f solver s, %.1f s" %
          (pid, tier, len(done), len(done) - len(inc), len(inc), len(skipped), tot("paths"), tot("z3_queries"), tot("z3_seconds"), time.time() - t0))
    for x in disagree[:3]:
        print("  native run differs: %s" % x)
    for x in inc[:5]:
        print("  incomplete: " + x)
    for j, v, t in spurious[:5]:
        print("  did not replay: %s %s %s -> %s" % (j.desc, v["msg"], text_of(v["inputs"]), t[:200]))
    if found:
        return 1
    if missing:
        print("  not reached: %s" % ", ".join(missing))
    if not done or len(inc) == len(done):
        print("  nothing was decided")
        return 2
    return 0


def replay_file(path):
    d = json.load(open(path))
    k = d["job"]
    tree = Tree()
    try:
        exe = tree.native(k["harness"], k["entry"], k["units"], k["defs"], k["env"])
        bad, txt = replay(exe, k["params"], d["inputs"])
        print(d["text"])
        print(txt)
        return 1 if bad else 0
    finally:
        tree.clean()


def main(argv):
    if argv[0] == "--replay":
        return replay_file(argv[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    try:
        return run(argv[0], tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    except Broken as e:
        print("check could not run: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
