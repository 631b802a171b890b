#!/usr/bin/env python3
"""Driver of one check:  run.py P01 [--tier quick|thorough] [--replay FILE]

Starts one worker per (precision, shard); every worker explores its part of the bounded space on the real code of
/repo (see worker.py).  Merges what they covered into /verif/evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION lines.  Exit 2: the check itself failed.
"""
import argparse, hashlib, importlib.util, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def load_meta(pid):
    """The module's constants, without importing numpy/TensorFlow (modules import those lazily)."""
    spec = importlib.util.spec_from_file_location(pid, os.path.join(HERE, "props", pid.lower() + ".py"))
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, HERE)
    spec.loader.exec_module(m)
    return m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--limit", type=int, default=0, help="development: at most this many cases per shard")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.dont_write_bytecode = True
    meta = load_meta(pid)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="mc_%s_" % pid)
    env = dict(os.environ, CUDA_VISIBLE_DEVICES="-1", TF_CPP_MIN_LOG_LEVEL="3", TF_ENABLE_ONEDNN_OPTS="0", MPLBACKEND="Agg",
               PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"), PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", LANG="C.UTF-8", PYTHONPATH="", TMPDIR=tmp)
    try:
        if a.replay:
            rep = json.load(open(a.replay))
            jobs = [(rep["dtype"], rep["shard"], rep["shards"], ["--replay", os.path.abspath(a.replay)])]
            tier = rep["tier"]
        else:
            dts = getattr(meta, "DTYPES", ("float32", "float64"))
            n = getattr(meta, "SHARDS", max(1, a.jobs // len(dts)))
            jobs = [(d, s, n, []) for s in range(n) for d in dts]
        running, results, todo = [], [], list(jobs)
        failed = []
        deadline = t0 + (820 if tier == "quick" else 6 * 3600)
        while todo or running:
            while todo and len(running) < a.jobs:
                d, s, n, extra = todo.pop(0)
                out = os.path.join(tmp, "%s_%d.json" % (d, s))
                log = open(out + ".log", "w")
                p = subprocess.Popen([PY, os.path.join(HERE, "worker.py"), pid, "--dtype", d, "--shard", str(s), "--shards", str(n),
                                      "--tier", tier, "--seed", str(seed), "--out", out, "--limit", str(a.limit)] + extra,
                                     stdout=log, stderr=subprocess.STDOUT, env=env, cwd=tmp)
                running.append((p, out, d, s))
            for r in list(running):
                p, out, d, s = r
                if p.poll() is None:
                    if time.time() > deadline:
                        p.kill(); p.wait()
                        failed.append("worker %s/%d exceeded the time limit" % (d, s)); running.remove(r)
                    continue
                running.remove(r)
                if p.returncode == 0 and os.path.exists(out):
                    results.append(json.load(open(out)))
                    if results[-1]["violations"] and os.environ.get("VERIF_FAILFAST"):      # development
                        for q in running: q[0].kill(); q[0].wait()
                        running, todo = [], []
                        break
                else:
                    failed.append("worker %s/%d ended with %s\n%s" % (d, s, p.returncode, open(out + ".log").read()[-3000:]))
            time.sleep(0.02)
        return report(pid, tier, seed, meta, results, failed, time.time() - t0, bool(a.replay), tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(pid, tier, seed, meta, results, failed, wall, replaying, tmp):
    states, outcomes = set(), set()
    for r in results:
        states.update(r["states"]); outcomes.update(r["outcomes"])
    viol = [v for r in results for v in r["violations"]]
    known = json.load(open(os.path.join(VERIF, "known_findings.json"))).get("findings", [])
    known = [k for k in known if k["property"] == pid]
    reported, seen_known = [], []
    for v in viol:
        k = next((k for k in known if k["signature"] == v["signature"]), None)
        if k is None:
            reported.append(v)
        elif k["signature"] not in [s["signature"] for s in seen_known]:
            seen_known.append(k)
    counters = {}
    for r in results:
        for k, c in r["counters"].items():
            counters[k] = counters.get(k, 0) + c
    cov = dict(counters)
    cov.update(states=len(states), transitions=sum(r["transitions"] for r in results),
               traces_validated_against_impl=sum(r["cases"] for r in results),
               evaluations=sum(r["evaluations"] for r in results), distinct_outcomes=len(outcomes),
               exhaustive=bool(results) and all(r["complete"] for r in results) and not failed,
               bounds=meta.BOUNDS[tier] if isinstance(meta.BOUNDS, dict) else meta.BOUNDS,
               rule=meta.RULE, samples=[s for r in results for s in r["samples"]][:6],
               workers=len(results))
    cov["distinct_nontrivial"] = len(outcomes)
    ev = dict(property=pid, tier=tier, seed=seed, level=meta.LEVEL, coverage=cov,
              assumptions=list(getattr(meta, "ASSUMPTIONS", ())), wall_s=round(wall, 2), violations=len(reported))
    if not replaying:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: states=%d transitions=%d traces=%d evaluations=%d outcomes=%d wall=%.1fs" % (
        pid, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["evaluations"],
        cov["distinct_outcomes"], wall))
    for k in known:
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if reported:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        shown = set()
        for v in reported:
            if len(shown) >= 3:
                break
            if v["signature"] in shown:
                continue
            shown.add(v["signature"])
            name = "%s-%s.json" % (pid, hashlib.sha1(json.dumps(v["case"], sort_keys=True).encode() + v["dtype"].encode()).hexdigest()[:10])
            path = os.path.join(VERIF, "replays", name)
            if not replaying:
                with open(path, "w") as f:
                    json.dump(dict(v, property=pid, tier=tier), f, indent=1)
            print("  " + v["message"].replace("\n", "\n  ")[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        for f in failed:
            print("note: " + f, file=sys.stderr)
        return 1
    if failed:
        print("CHECK ERROR: " + "\n".join(failed), file=sys.stderr)
        return 2
    if cov["traces_validated_against_impl"] == 0:
        print("CHECK ERROR: nothing was explored", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
