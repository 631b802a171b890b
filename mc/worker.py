#!/usr/bin/env python3
"""One worker: explores the cases of one property module with index = shard (mod shards) on the real code.

A *case* is a JSON-able description of one complete execution (an operation list, a configuration, an assignment of
environment answers).  The module enumerates all cases within its bounds; run_case executes one against the code in
/repo next to the reference model and reports every disagreement.  An unexpected exception is a disagreement too.
"""
import argparse, hashlib, importlib, json, os, sys, time, traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)


class Mismatch(Exception):
    """Raised by env.check when implementation and reference disagree."""


class Env(object):
    def __init__(self, a):
        self.pid, self.dtype, self.tier, self.shard, self.shards, self.seed = a.pid, a.dtype, a.tier, a.shard, a.shards, a.seed
        self.states, self.outcomes, self.samples, self.counters = set(), set(), [], {}
        self.transitions = self.evaluations = self.cases = 0
        self.f64 = a.dtype == "float64"
        self.thorough = a.tier == "thorough"
        self._quiet = False

    # --- accounting -------------------------------------------------------------------------------------------
    @staticmethod
    def _h(key):
        return hashlib.sha1(repr(key).encode()).hexdigest()[:16]

    def state(self, key):
        self.states.add(self._h((self.dtype, key)))

    def outcome(self, key):
        self.outcomes.add(self._h((self.dtype, key)))

    def outcome_array(self, arr):
        import numpy as np
        arr = np.asarray(arr)
        if arr.dtype.kind in "fc":
            arr = np.round(arr.astype(complex), 4) + 0.0
        self.outcomes.add(hashlib.sha1(arr.tobytes() + str(arr.shape).encode()).hexdigest()[:16])

    def step(self, n=1):
        self.transitions += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(obj)

    # --- oracles ----------------------------------------------------------------------------------------------
    def check(self, cond, msg):
        self.evaluations += 1
        if not cond:
            raise Mismatch(msg() if callable(msg) else msg)

    def same(self, actual, expected, what):
        """Exact equality of values (arrays: shape and all elements)."""
        import numpy as np
        self.evaluations += 1
        a, e = np.asarray(actual), np.asarray(expected)
        if a.shape != e.shape:
            raise Mismatch("%s: shape %s, expected %s" % (what, a.shape, e.shape))
        if not np.array_equal(a, e):
            raise Mismatch("%s: %s" % (what, _diff(a, e)))

    def close(self, actual, expected, what, scale=None, tol32=3e-5, tol64=1e-9, skip=None, dtype=None):
        """|actual-expected| <= tol*scale elementwise (scale: array/scalar; default max|expected|)."""
        import numpy as np
        self.evaluations += 1
        a, e = np.asarray(actual), np.asarray(expected)
        if a.shape != e.shape:
            raise Mismatch("%s: shape %s, expected %s" % (what, a.shape, e.shape))
        if dtype is not None and a.dtype != np.dtype(dtype):
            raise Mismatch("%s: dtype %s, expected %s" % (what, a.dtype, np.dtype(dtype)))
        if a.size == 0:
            return
        if scale is None:
            scale = np.max(np.abs(e))
        tol = (tol64 if self.f64 else tol32) * np.asarray(scale, dtype=float) + (1e-300 if self.f64 else 1e-37)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(a - e) <= tol)
        if skip is not None:
            bad = bad & ~skip
        if np.any(bad):
            k = np.unravel_index(np.argmax(bad), bad.shape) if bad.shape else ()
            raise Mismatch("%s: at index %s got %r, expected %r (%d of %d elements differ; tolerance %.3g)" % (
                what, tuple(int(i) for i in k), complex(a[k]) if np.iscomplexobj(a) else float(a[k]),
                complex(e[k]) if np.iscomplexobj(e) else float(e[k]), int(bad.sum()), bad.size,
                float(np.broadcast_to(tol, bad.shape)[k])))

    def raises(self, exc, f, what):
        self.evaluations += 1
        try:
            r = f()
        except exc:
            return
        except Exception as e:
            raise Mismatch("%s: raised %s(%s), expected %s" % (what, type(e).__name__, str(e)[:200], exc))
        raise Mismatch("%s: accepted (returned %s), expected %s" % (what, repr(r)[:100], exc))

    # --- precision --------------------------------------------------------------------------------------------
    @property
    def real(self):
        import numpy as np
        return np.float64 if self.f64 else np.float32

    @property
    def cplx(self):
        import numpy as np
        return np.complex128 if self.f64 else np.complex64


def _diff(a, e):
    import numpy as np
    try:
        bad = np.asarray(a != e)
        k = np.unravel_index(np.argmax(bad), bad.shape) if bad.shape else ()
        return "at index %s got %r, expected %r (%d of %d elements differ)" % (
            tuple(int(i) for i in k), a[k], e[k], int(bad.sum()), bad.size)
    except Exception:
        return "got %r, expected %r" % (a, e)


def run_one(mod, env, case):
    """None, or the message of the disagreement."""
    try:
        mod.run_case(env, case)
        return None
    except Mismatch as e:
        return str(e)
    except Exception as e:
        tb = traceback.format_exc()
        return "unexpected %s: %s\n%s" % (type(e).__name__, str(e)[:400], tb[-1200:])


def shrink(mod, env, case, msg):
    """Shorten the operation list of a failing case (fresh objects on every attempt)."""
    best, bmsg = case, msg
    if not isinstance(case.get("ops"), list) or len(case["ops"]) < 2:
        return best, bmsg
    budget, t0 = 60, time.time()

    def attempt(ops):
        nonlocal best, bmsg, budget
        budget -= 1
        c = dict(best, ops=ops)
        m = run_one(mod, env, c)
        if m is not None and not m.startswith("unexpected IndexError"):
            best, bmsg = c, m
            return True
        return False

    n = 1
    while n < len(best["ops"]) and budget > 0:          # short suffixes/prefixes around the failing step first
        k = getattr(env, "failed_at", len(best["ops"]) - 1) + 1
        if attempt(best["ops"][max(0, k - n):k]):
            break
        n *= 2
    i = 0
    while i < len(best["ops"]) and budget > 0 and len(best["ops"]) > 1 and time.time() - t0 < 60:
        if not attempt(best["ops"][:i] + best["ops"][i + 1:]):
            i += 1
    return best, bmsg


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--dtype"); ap.add_argument("--tier"); ap.add_argument("--out")
    ap.add_argument("--shard", type=int); ap.add_argument("--shards", type=int); ap.add_argument("--seed", type=int)
    ap.add_argument("--replay"); ap.add_argument("--limit", type=int, default=0)
    a = ap.parse_args()
    env = Env(a)
    mod = importlib.import_module("props." + a.pid.lower())
    violations, complete, ncases = [], True, 0

    def violation(case, msg, shrunk=True):
        again = None
        if shrunk:
            case, msg = shrink(mod, env, case, msg)
            again = run_one(mod, env, case) is not None
        violations.append(dict(case=case, message="%s [%s] case=%s: %s" % (a.pid, a.dtype, json.dumps(case)[:600], msg), dtype=a.dtype,
                               shard=a.shard, shards=a.shards, reproduced_in_process=again,
                               signature="%s|%s" % (a.dtype, json.dumps(case, sort_keys=True)),
                               how="python3 /verif/mc/run.py %s --replay THIS_FILE" % a.pid))

    try:
        import boot
        boot.start(env, mod)
        ok = True
    except Exception as e:
        ok = False
        tb = traceback.format_exc()
        if REPO in tb:
            violation({"import": True}, "the package cannot be imported: %s\n%s" % (e, tb[-1500:]), shrunk=False)
        else:
            raise
    if ok:
        if a.replay:
            rep = json.load(open(a.replay))
            gen = [rep["case"]]
        else:
            gen = mod.cases(env)
        for idx, case in enumerate(gen):
            if not a.replay and idx % a.shards != a.shard:
                continue
            if a.limit and env.cases >= a.limit:
                complete = False
                break
            env.cases += 1
            msg = run_one(mod, env, case)
            if msg is not None:
                case = json.loads(json.dumps(case))
                violation(case, msg)
                complete = False
                if len(violations) >= (1 if os.environ.get("VERIF_FAILFAST") else 3):
                    break
        if a.replay and not violations:                 # needs the cases before it (state leaking between executions)
            for idx, case in enumerate(mod.cases(env)):
                if idx % a.shards == a.shard and run_one(mod, env, case) is not None:
                    violation(case, run_one(mod, env, case) or "only after the preceding cases", shrunk=False)
                    break
    with open(a.out, "w") as f:
        json.dump(dict(states=sorted(env.states), outcomes=sorted(env.outcomes), samples=env.samples, counters=env.counters,
                       transitions=env.transitions, evaluations=env.evaluations, cases=env.cases, violations=violations,
                       complete=complete), f)
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)      # TensorFlow's thread pools have nothing to save
