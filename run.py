#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks.

  run.py check ID [--tier quick|thorough]   decide one property on /repo's working tree
  run.py build                              build every simulator binary
  run.py replay FILE                        re-execute a replay file (prints the trace)

VERIF_SEED chooses the seed (default 1), VERIF_TIER the tier (default quick), VERIF_REPO the tree.
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Exit 2: no answer.
"""
import hashlib, json, os, re, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "sim"))
from registry import BINARIES, CHECKS, BASE_FLAGS, KINDS   # noqa: E402

WORKERS = 8


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(REPO, "tools"),
                 os.path.join(HERE, "sim")):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            if "__pycache__" in d:
                continue
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
                except OSError:
                    pass
    return h.hexdigest()[:16]


def build_dir():
    d = os.path.join(HERE, "build", tree_hash())
    os.makedirs(d, exist_ok=True)
    return d


def prune(keep):
    """keep the build folders of the last trees only"""
    root = os.path.join(HERE, "build")
    ds = sorted((os.path.join(root, x) for x in os.listdir(root)), key=os.path.getmtime)
    for d in ds[:-4]:
        if d != keep and os.path.isdir(d):
            subprocess.call(["rm", "-rf", d])


def compile_one(job):
    cmd, out, log = job
    if os.path.exists(out):
        return 0, ""
    tmp = out + ".tmp%d.o" % os.getpid()
    p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0:
        os.replace(tmp, out)
    return p.returncode, p.stdout


def build(names):
    d = build_dir()
    prune(d)
    jobs, links, seen = [], [], set()
    for n in names:
        b = BINARIES[n]
        kind = KINDS[b["kind"]]
        objs = []
        for src in b["sources"] + kind["sources"]:
            extra = []
            if isinstance(src, tuple):
                src, extra = src[0], list(src[1])
            path = src.replace("@repo", REPO).replace("@sim", os.path.join(HERE, "sim"))
            instr = kind["target_flags"] if ("worlds" in src or "@repo" in src) else kind["core_flags"]
            tag = re.sub(r"[^A-Za-z0-9]", "_", src) + "-" + b["kind"] + ("-" + hashlib.md5(" ".join(extra).encode()).hexdigest()[:6] if extra else "")
            o = os.path.join(d, tag + ".o")
            objs.append(o)
            if o in seen:
                continue
            seen.add(o)
            flags = [f.replace("@repo", REPO).replace("@sim", os.path.join(HERE, "sim")) for f in BASE_FLAGS + instr + extra]
            jobs.append(([kind.get("cxx", "g++")] + flags + ["-c", path], o, path))
        links.append((n, objs, dict(kind, libs=kind["libs"] + b.get("libs", []))))
    # long compilations first
    jobs.sort(key=lambda j: 0 if "worlds" in j[2] else 1)
    with ThreadPoolExecutor(WORKERS) as ex:
        for job, (rc, out) in zip(jobs, ex.map(compile_one, jobs)):
            if rc:
                print("BUILD-ERROR %s\n%s" % (job[2], out[-4000:]))
                sys.exit(2)

    def link(l):
        n, objs, kind = l
        exe = os.path.join(d, n)
        if os.path.exists(exe):
            return 0, ""
        tmp = exe + ".tmp%d" % os.getpid()
        p = subprocess.run([kind.get("cxx", "g++")] + kind["link_flags"] + ["-o", tmp] + objs + kind["libs"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            os.replace(tmp, exe)
        return p.returncode, p.stdout

    with ThreadPoolExecutor(WORKERS) as ex:
        for l, (rc, out) in zip(links, ex.map(link, links)):
            if rc:
                print("LINK-ERROR %s\n%s" % (l[0], out[-4000:]))
                sys.exit(2)
    return d


def known_findings(pid):
    """lines 'known: property=<id> class=<cls> match=<regex> :: <text>'; 'fixed:' lines suppress nothing"""
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return res


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    d = build(sorted({w["bin"] for w in c["worlds"]}))
    tbuild = time.time() - t0
    scratch = os.path.join(d, "out-%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    results, violation, errors = [], None, []
    env = dict(os.environ)
    env["SIM_SCRATCH"] = scratch
    for w in c["worlds"]:
        total, limit = w[tier]
        procs = []
        n = min(WORKERS, w.get("workers", WORKERS))
        ts = time.time()
        for k in range(n):
            out = os.path.join(scratch, "%s.%d.json" % (w["name"].replace("/", "_"), k))
            rep = os.path.join(scratch, "%s.%d.replay" % (w["name"].replace("/", "_"), k))
            cmd = [os.path.join(d, w["bin"]), "batch", "--world", w["name"], "--seed", str(seed), "--start", str(k),
                   "--stride", str(n), "--count", str((total - k + n - 1) // n), "--time", str(limit),
                   "--out", out, "--replay-out", rep, "--gate", str(w.get("gate", 10)), "--minimise", "15" if tier == "quick" else "60",
                   "--cpu", str(w.get("cpu", 10))]
            procs.append((k, out, rep, subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        agg = {"world": w["name"], "runs": 0, "steps": 0, "simtime_ns": 0, "gated": 0, "gate_fail": 0, "ops": 0, "faulted_runs": 0,
               "counters": {}, "samples": []}
        hashes, states = set(), set()
        for k, out, rep, p in procs:
            err = p.communicate()[1]
            if p.returncode != 0 or not os.path.exists(out):
                errors.append("%s worker %d: exit %s %s" % (w["name"], k, p.returncode, err[-500:]))
                continue
            j = json.load(open(out))
            for f in ("runs", "steps", "simtime_ns", "gated", "gate_fail", "ops", "faulted_runs"):
                agg[f] += j[f]
            for a, b in j["counters"].items():
                agg["counters"][a] = agg["counters"].get(a, 0) + b
            agg["samples"] += j["samples"]
            with open(out + ".sets", "rb") as f:
                a, b = struct.unpack("QQ", f.read(16))
                hashes.update(struct.unpack("%dQ" % a, f.read(8 * a)))
                states.update(struct.unpack("%dQ" % b, f.read(8 * b)))
            if j["gate_fail"] and not j["violation"]:
                errors.append("%s: a run is not repeatable: %s" % (w["name"], err[-500:]))
            if j["violation"]:
                cand = (j["cls"].startswith("harness"), j["flaky"], len(open(rep).read()) if os.path.exists(rep) else 1 << 40, j, rep, w)
                if j["cls"].startswith("harness") or not os.path.exists(rep):
                    errors.append("%s: %s %s" % (w["name"], j["cls"], j["msg"]))
                elif violation is None or cand[:3] < violation[:3]:
                    violation = cand
        agg["elapsed"] = time.time() - ts
        agg["distinct_histories"] = len(hashes)
        agg["distinct_states"] = len(states)
        results.append(agg)
        if violation:
            break

    rc, nviol, replay = 0, 0, None
    if violation:
        j, rep, w = violation[3], violation[4], violation[5]
        # fresh-process replay: the violation must come back
        ok = None
        for _ in range(3):
            p = subprocess.run([os.path.join(d, w["bin"]), "replay", rep], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            if p.returncode in (1, 5):
                ok = p.returncode
                if ok == 1:
                    break
        if ok is None:
            errors.append("%s: violation %s (%s) does not reproduce from its replay file" % (w["name"], j["cls"], j["msg"][:500]))
        else:
            replay = os.path.join(HERE, "replays", "%s-%s-seed%d-run%d.replay" % (pid, w["name"].replace("/", "_"), seed, j["run"]))
            with open(rep) as a, open(replay, "w") as b:
                b.write(a.read())
            nviol = 1
            rc = 1
    total_runs = sum(r["runs"] for r in results)
    if total_runs == 0:
        errors.append("nothing was explored")
    # every world must have done what it exists for
    for r, w in zip(results, c["worlds"]):
        for probe in w.get("must", []):
            if not violation and r["runs"] >= 200 and not r["counters"].get(probe):
                errors.append("%s: probe %s never fired" % (r["world"], probe))
    for cls, rx, text in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    counters = {}
    for r in results:
        for a, b in r["counters"].items():
            counters[a] = counters.get(a, 0) + b
    wall = time.time() - t0
    sim_wall = sum(r["elapsed"] for r in results) or 1e-9
    cov = {
        "evaluations": total_runs,
        "distinct_nontrivial": sum(r["distinct_histories"] for r in results),
        "rule": c["rule"] + " A run counts as non-trivial if it drew at least one choice and its event-log hash differs from every other run's.",
        "samples": [s for r in results for s in r["samples"]][:6] or ["(none)"],
        "simulated_runs": total_runs,
        "runs_per_hour": int(total_runs / sim_wall * 3600),
        "seeds_per_hour": int(total_runs / sim_wall * 3600),
        "simulated_time_s": sum(r["simtime_ns"] for r in results) / 1e9,
        "scheduler_or_operation_steps": sum(r["steps"] for r in results),
        "operations": sum(r["ops"] for r in results),
        "distinct_abstract_states": sum(r["distinct_states"] for r in results),
        "state_measure": c.get("state_measure", "hash of the abstract state after every operation"),
        "faults_injected": {k[6:]: v for k, v in counters.items() if k.startswith("fault:")},
        "runs_with_a_fault": sum(r["faulted_runs"] for r in results),
        "probes": {k[6:]: v for k, v in counters.items() if k.startswith("probe:")},
        "operation_counts": {k: v for k, v in counters.items() if ":" not in k},
        "repeatability_gate": {"runs_executed_twice": sum(r["gated"] for r in results), "differing": sum(r["gate_fail"] for r in results)},
        "real_code": c["real"], "stubbed": c["stubs"],
        "worlds": [{k: r[k] for k in ("world", "runs", "elapsed", "distinct_histories", "distinct_states", "faulted_runs")} for r in results],
        "build_s": round(tbuild, 2),
    }
    if violation:
        cov["violation"] = {"class": violation[3]["cls"], "message": violation[3]["msg"][:1500], "replay": replay, "minimisation_candidates": violation[3]["candidates"]}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2),
          "violations": nviol, "assumptions": c["assumptions"]}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    subprocess.call(["rm", "-rf", scratch])
    if rc == 1:
        v = violation[3]
        print("%s: %s" % (v["cls"], v["msg"][:2000]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e)
        return 2
    print("%s held: %d runs, %d distinct histories, %.1f s (build %.1f s)" % (pid, total_runs, cov["distinct_nontrivial"], wall, tbuild))
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "build":
        build(sorted(BINARIES) if len(a) == 1 else a[1:])
        return 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    if a[0] == "replay":
        world = next(l.split()[1] for l in open(a[1]) if l.startswith("world "))
        b = next(w["bin"] for c in CHECKS.values() for w in c["worlds"] if w["name"] == world)
        d = build([b])
        env = dict(os.environ)
        env["SIM_SCRATCH"] = d
        return subprocess.call([os.path.join(d, b), "replay", a[1]], env=env)
    print(__doc__)
    return 2


sys.exit(main())
