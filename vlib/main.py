"""Parent: shards cases over workers, merges journals, decides, writes evidence."""
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["known"] if k["property"] == prop]


def match_known(known, case, mech, detail):
    for k in known:
        if case.startswith(k["case_prefix"]) and mech == k["mechanism"]:
            if all(s in detail for s in k.get("detail_contains", [])):
                return k
    return None


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if "--replay" in args:
        with open(args[args.index("--replay") + 1]) as f:
            rp = json.load(f)
        only, tier, seed = rp["case"], rp["tier"], rp["seed"]
        os.environ["VERIF_TIER"], os.environ["VERIF_SEED"] = tier, str(seed)
    if "--only" in args:
        only = args[args.index("--only") + 1]
    verbose = "-v" in args
    t0 = time.time()
    sys.path.insert(0, HERE)
    mod = importlib.import_module("checks." + prop)
    spec = mod.SPEC
    all_cases = mod.cases(tier, seed)
    cases = [c for c in all_cases if only is None or c[0].startswith(only)]
    if not cases:
        print("no case matches"); sys.exit(2)
    budget = spec.get("budget", {}).get(tier, 700 if tier == "quick" else 3300)
    nw = min(spec.get("workers", 8), len(cases), max(1, (os.cpu_count() or 8)))
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    env = dict(os.environ)
    env.setdefault("OMP_NUM_THREADS", "2")
    env["VERIF_TMP"] = tmp
    for k, v in spec.get("env", {}).items():
        env[k] = v
    if hasattr(mod, "prepare"):
        msg = mod.prepare(tmp, env)
        if msg:
            print("ERROR: preparation failed: %s" % msg)
            subprocess.run(["rm", "-rf", tmp])
            sys.exit(3)

    journal = os.path.join(tmp, "journal")
    results, crashes = [], []
    timed_out = []

    # dynamic sharding: workers claim case indices by creating lock files
    sel = os.path.join(tmp, "cases.json")
    with open(sel, "w") as f:
        json.dump([c[0] for c in cases], f)

    def spawn(i):
        log = open(os.path.join(tmp, "w%d.log" % i), "ab")
        return subprocess.Popen(
            [sys.executable, "-m", "vlib.worker", prop, tier, str(seed), tmp, str(i)],
            stdout=log, stderr=subprocess.STDOUT, env=env, cwd=HERE, start_new_session=True)

    procs = {i: spawn(i) for i in range(nw)}
    deadline = t0 + budget
    respawns = 0
    harness_errors = []
    while procs:
        time.sleep(0.05)
        for i, p in list(procs.items()):
            rc = p.poll()
            if rc is None:
                if time.time() > deadline:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    cur = _current(tmp, i)
                    timed_out.append(cur)
                    del procs[i]
                continue
            del procs[i]
            if rc == 0:
                continue
            cur = _current(tmp, i)
            with open(os.path.join(tmp, "w%d.log" % i), "rb") as f:
                tail = f.read()[-3000:].decode("utf8", "replace")
            if cur is None or rc == 97:
                harness_errors.append((i, rc, tail))
                continue
            crashes.append((cur, rc, tail))
            if respawns < 40:
                respawns += 1
                ni = 100 + respawns
                procs[ni] = spawn(ni)

    for fn in os.listdir(tmp):
        if fn.startswith("journal"):
            with open(os.path.join(tmp, fn)) as f:
                for line in f:
                    try:
                        results.append(json.loads(line))
                    except ValueError:
                        pass

    known = load_known(prop)
    viol, known_hits = [], {}
    events, sigs, evals, samples, inconc = {}, set(), 0, [], 0
    for r in results:
        evals += r["evals"]
        sigs.update(r["sigs"])
        if r.get("sample") and len(samples) < 8:
            samples.append("%s :: %s" % (r["case"], r["sample"]))
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for mech, detail in r["violations"]:
            k = match_known(known, r["case"], mech, detail)
            if k is not None:
                known_hits.setdefault(k["id"], (k, r["case"], detail))
            else:
                viol.append((r["case"], mech, detail))
    for cur, rc, tail in crashes:
        mech = "crash:" + (signal.Signals(-rc).name if rc < 0 else "exit%d" % rc)
        k = match_known(known, cur, mech, tail)
        if k is not None:
            known_hits.setdefault(k["id"], (k, cur, tail[-200:]))
        else:
            viol.append((cur, mech, tail))
    if hasattr(mod, "finish") and only is None:
        # whole-run oracles over the merged events (returns list of (mech, detail))
        for mech, detail in mod.finish(results, tier, seed):
            viol.append(("finish", mech, detail))

    wall = time.time() - t0
    cov = dict(
        evaluations=evals, distinct_nontrivial=len(sigs), rule=spec["rule"],
        samples=samples, cases_run=len(results), cases_planned=len(cases),
        monitor_events=events, worker_crashes=len(crashes), workers=nw,
        known_findings_reproduced=sorted(known_hits))
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"),
              coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(wall, 2),
              violations=len(viol))
    if only is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    slow = sorted(((r["wall"], r["case"]) for r in results), reverse=True)[:5]
    print("%s tier=%s seed=%d cases=%d/%d evaluations=%d distinct=%d wall=%.1fs" % (
        prop, tier, seed, len(results), len(cases), evals, len(sigs), wall))
    print("  events: " + ", ".join("%s=%d" % kv for kv in sorted(events.items())))
    if verbose:
        print("  slowest: %s" % slow)
    for kid, (k, case, detail) in sorted(known_hits.items()):
        print("KNOWN-FINDING: property=%s %s [%s] (case %s)" % (prop, k["what"], kid, case))
    if only is None:
        # a listed finding that no longer shows is not an alarm, but say so
        for k in known:
            if k["id"] not in known_hits:
                print("note: known finding %s did not show in this run" % k["id"])
    rc = 0
    if viol:
        rc = 1
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        groups = {}
        for case, mech, detail in viol:
            groups.setdefault(mech, []).append((case, detail))
        for n, (mech, items) in enumerate(sorted(groups.items(), key=lambda kv: -len(kv[1]))):
            if n >= 6:
                break
            case, detail = items[0]
            rp = os.path.join(rdir, "%s_%s_%d_%d.json" % (prop, tier, seed, n))
            with open(rp, "w") as f:
                json.dump(dict(property=prop, case=case, tier=tier, seed=seed, mechanism=mech,
                               detail=detail, also=[c for c, _ in items[1:30]],
                               cmd="./run.sh %s %s --replay %s" % (prop, tier, rp)), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  %s (%d case(s)) in %s: %s" % (mech, len(items), case, detail[:700]))
            if verbose:
                for c, d in items[1:12]:
                    print("     also %s: %s" % (c, d[:160]))
    else:
        miss = [k for k, v in spec.get("min_events", {}).items() if events.get(k, 0) < v]
        if harness_errors:
            print("ERROR: harness: %s" % (harness_errors[:1],)); rc = 3
        elif timed_out and len(results) < spec.get("min_frac", 0.5) * len(cases):
            print("INCONCLUSIVE: budget ran out in %s" % timed_out); rc = 4
        elif only is None and miss:
            print("INCONCLUSIVE: monitors not reached: %s" % miss); rc = 4
        elif timed_out:
            print("note: budget ran out; %d of %d cases ran" % (len(results), len(cases)))
    if not verbose or rc in (0, 1):
        subprocess.run(["rm", "-rf", tmp])
    sys.stdout.flush()
    sys.exit(rc)


def _current(tmp, i):
    try:
        with open(os.path.join(tmp, "cur%d" % i)) as f:
            return f.read().strip() or None
    except OSError:
        return None


if __name__ == "__main__":
    main()
