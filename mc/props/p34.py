"""P34: the same program gives the same results, bit for bit."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of programs (orders and words of operations) x process conditions on the real code, every program executed in fresh processes whose results are compared bit for bit"
BOUNDS = {
    "quick": "programs: 20 kinds of computation of P31 and 12 single calls on existing objects x 2 sets of parameters, each done twice, forwards and backwards; every word of up to 3 operations over random hologram, gs, mraf, random grating and patch, with seed 1 and 2; eager programs as well; each in 3 processes (hash seed 0; hash seed 4321, freed and fresh memory of every size filled with rubbish; hash seed 99, other memory layout, other working directory, other environment size); within and across programs the results of the methods without random numbers compared as well; both precisions",
    "thorough": "3 sets of parameters, 4 rotated orders more, words up to 4 operations and 4 seeds"}
RULE = "state = (program, process conditions); transition = one operation compared bit for bit with the same operation of the same program in another process (or, without random numbers, at another place); an outcome is a distinct result"
ASSUMPTIONS = ["TensorFlow runs on one thread of the processor and tf.random.set_seed was called at the start of a program that draws random numbers", "the two precisions and eager and graph mode are compared each with itself"]
SHARDS = 4
KINDS = ["hg", "lg", "zernike", "derived", "window", "grid", "convert", "ideal", "simple", "random", "ifta", "patch", "grating", "pack", "gs", "mraf", "propagate", "block", "analysis", "number", "bare pack", "bare propagate", "bare call", "bare convert", "bare grating", "bare patch", "bare hologram", "bare off", "bare on",
         "bare number", "bare remove", "bare grids"]
RANDOM = ["random", "gs", "mraf", "patch", "grating"]
CONDITIONS = ["rubbish", "layout"]


def programs(T):
    once = [(k, v) for v in range(3 if T else 2) for k in KINDS]
    both = once + once[::-1]
    out = [("all", "graph", both, 1), ("all backwards", "graph", both[::-1][:len(once)] * 2, 1), ("all eager", "eager", once[::-1] + once, 2)]
    if T: out += [("rotated %d" % q, "graph", once[q * 9:] + once[:q * 9], 3) for q in range(1, 5)]
    words = [w for n in range(1, (5 if T else 4)) for w in itertools.product(RANDOM, repeat=n)]
    prog = [(a, 0) for w in words for a in w]
    for s in range(1, 5 if T else 3):
        out.append(("random words", "graph", prog, s))
    out.append(("random words", "eager", prog, 1))
    return out


def cases(env):
    for k, p in enumerate(programs(env.thorough)):
        yield {"program": k, "name": p[0], "mode": p[1], "seed": p[3], "ops": CONDITIONS}


def child(env, p, condition):
    import json, os, pickle, shutil, subprocess, sys, tempfile
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    e = dict(os.environ, PYTHONHASHSEED={"plain": "0", "rubbish": "4321", "layout": "99"}[condition])
    cwd = tempfile.mkdtemp(prefix="mc_p34_")
    if condition == "rubbish": e["MALLOC_PERTURB_"] = "173"
    if condition == "layout": e["SOMETHING_LONG"] = "x" * 5000
    out = os.path.join(cwd, "out.pickle")
    opts = {"mode": p[1], "program": p[2], "seed": p[3], "dtype": env.dtype, "rubbish": condition == "layout", "fill": {"plain": 0, "rubbish": 173, "layout": 255}[condition]}
    try:
        r = subprocess.run([sys.executable, os.path.join(here, "p34child.py"), json.dumps(opts), out], cwd=cwd if condition == "layout" else None, env=e, capture_output=True, text=True)
        env.check(os.path.exists(out), lambda: "%s process failed: %s" % (condition, r.stderr[-800:]))
        with open(out, "rb") as f: return pickle.load(f)
    finally:
        shutil.rmtree(cwd)


def differ(a, b):
    import numpy as np
    if isinstance(a, str) or isinstance(b, str): return "%s and %s" % (a if isinstance(a, str) else "a result", b if isinstance(b, str) else "a result")
    if len(a) != len(b): return "%d and %d results" % (len(a), len(b))
    for k, (p, q) in enumerate(zip(a, b)):
        if p[:2] != q[:2]: return "result %d is %s and %s" % (k, p[:2], q[:2])
        if p[2] != q[2]:
            u, w = (np.frombuffer(z[2], z[0]) for z in (p, q))
            n = int(np.argmax(u != w))
            return "result %d, element %d is %r and %r (%d of %d differ)" % (k, n, u[n], w[n], int(np.sum(u != w)), u.size)
    return "the same"


_first = {}


def run_case(env, case):
    import hashlib
    p = programs(env.thorough)[case["program"]]
    want = child(env, p, "plain")
    first = _first.setdefault(p[1], {})
    for k, (what, v) in enumerate(p[2]):
        env.check(not isinstance(want[k], str), lambda: "operation %d of program %r (%s %d): %s" % (k, case["name"], what, v, want[k]))
        env.step()
        env.outcome(hashlib.sha1(repr(want[k]).encode()).hexdigest())
        if what not in RANDOM:
            w = first.setdefault((what, v), want[k])
            env.check(w == want[k], lambda: "%s %d as operation %d of program %r differs from the same computation at another place: %s" % (what, v, k, case["name"], differ(w, want[k])))
    for n, condition in enumerate(case["ops"]):
        env.failed_at = n
        got = child(env, p, condition)
        for k, (what, v) in enumerate(p[2]):
            env.step()
            env.check(got[k] == want[k], lambda: "operation %d (%s %d) of program %r in a second process (%s): %s" % (k, what, v, case["name"], condition, differ(want[k], got[k])))
        env.state((case["name"], case["seed"], condition))
    env.sample({"program": case["name"], "mode": p[1], "seed": p[3], "operations": len(p[2])})
