"""Development aid: builds /verif/seeded/<id>/ from the specs in seedspec.py.
   mkseed.py build [ID...]   writes patch.diff, demo.py, demo.sh, meta.json
   mkseed.py check [ID...]   in scratch copies of /repo: demo passes without and fails with the patch, stable tests pass with both
                             precisions, and reports whether the property's quick check catches it
No check reads this file or /verif/seeded."""
import concurrent.futures, difflib, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedspec import SEEDS
PY = "/opt/venv/bin/python"
OUT = "/verif/seeded"
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def edited(path, edits):
    s = open(path, newline="").read()
    crlf = s.count("\r\n") > s.count("\n") / 2
    t = s.replace("\r\n", "\n") if crlf else s
    for old, new in edits:
        assert t.count(old) == 1, (path, t.count(old), old)
        t = t.replace(old, new)
    return s, t.replace("\n", "\r\n") if crlf else t


def build(sid, prop, edits, needs, breaks, demo):
    d = os.path.join(OUT, sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    byfile = {}
    for f, old, new in edits:
        byfile.setdefault(f, []).append((old, new))
    diff = ""
    for f, es in byfile.items():
        a, b = edited(os.path.join("/repo", f), es)
        diff += "diff --git a/%s b/%s\n" % (f, f)
        for line in difflib.unified_diff(a.splitlines(keepends=True), b.splitlines(keepends=True), "a/" + f, "b/" + f):
            diff += line if line.endswith("\n") else line + "\n\\ No newline at end of file\n"
    open(os.path.join(d, "patch.diff"), "w", newline="").write(diff)
    open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nos.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')\nos.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')\nimport numpy as np\n" + demo.strip("\n") + "\nprint('ok')\n")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/sh\n# Run with cwd /repo: exit 0 when the property holds for this input, nonzero when it is broken.\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def check(sid):
    d = "/tmp/seed/%s" % sid
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d)
    src = os.path.join(OUT, sid)
    try:
        run = lambda cmd, **k: subprocess.run(cmd, cwd=d, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="-1", PYTHONPATH=d, VERIF_REPO=d, VERIF_JOBS=os.environ.get("MS_JOBS", "8")), **k)
        t = time.time()
        r = run(["sh", src + "/demo.sh"])
        if r.returncode: return sid, "DEMO FAILS UNPATCHED " + r.stdout[-300:] + r.stderr[-600:]
        t = time.time() - t
        r = run(["git", "apply", src + "/patch.diff"])
        if r.returncode: return sid, "PATCH " + r.stderr
        r = run(["sh", src + "/demo.sh"])
        if not r.returncode: return sid, "DEMO PASSES PATCHED"
        res = "demo %.0fs [%s]" % (t, (r.stderr.strip().split("\n") or [""])[-1][:80])
        if "--notests" not in sys.argv:
            for extra in ([], ["--backend64"]):
                q = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "test"] + extra)
                res += " | " + q.stdout.strip().split("\n")[-1][:40]
                if " failed" in res or " error" in res: return sid, "TESTS " + res
        prop = json.load(open(src + "/meta.json"))["property"]
        t = time.time()
        r = run([sys.executable, "/verif/mc/run.py", prop])
        res += " | %s %s %.0fs %s" % (prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR%d" % r.returncode), time.time() - t, "" if r.returncode != 1 else r.stdout.strip().split("\n")[1][:160] if len(r.stdout.strip().split("\n")) > 1 else "")
        return sid, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    todo = [s for s in SEEDS if not want or s[0] in want]
    for s in todo:
        if sys.argv[1] == "build" or "--build" in sys.argv: build(*s)
    if sys.argv[1] == "check":
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("MS_PAR", "3"))) as ex:
            for r in ex.map(check, [s[0] for s in todo]):
                print(*r, flush=True)
                f = "/verif/tools/caught.json"
                c = json.load(open(f))
                prop = json.load(open(os.path.join(OUT, r[0], "meta.json")))["property"]
                c[r[0]] = prop if prop + " caught" in r[1] else "missed" if "MISSED" in r[1] else "not valid"
                json.dump(c, open(f, "w"), indent=1, sort_keys=True)
