"""P33: the surroundings of a computation do not matter and are left alone."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operations x surroundings (process-wide settings, one or two at a time, and fresh processes) on the real code, results compared with those in plain surroundings, and exhaustive comparison of every process-wide setting before and after every operation and sequence of operations"
BOUNDS = {
    "quick": "20 kinds of computation of P31 (profiles, windows, grids, conversions, holograms by all 6 methods, patches, packing, simulations with blocking and powers, Zernike analysis, number images) in 17 surroundings (eager; 9 of them also in graph mode) (other working directory, deleted working directory, warnings as errors, NumPy errors raising, print options, closed standard output, seeded and reseeded generators, empty environment, within a gradient tape, a name scope, a device scope, after the same computation in the other of eager and graph mode, garbage collection off or at every allocation, other thread, exhausted decimal context and a higher recursion limit) and every pair of 4 of them; 28 settings compared after every operation, after every ordered pair of operations, and after refused requests; fresh processes with 10 kinds of start in 4 combinations (optimized bytecode, other hash seeds, other working directory, other locale, warnings as errors, several threads, import by another thread, import after other libraries were configured); both precisions",
    "thorough": "every pair of surroundings, each kind of start alone, 3 sets of parameters, every triple of operations"}
RULE = "state = (operation, surroundings) or (operation history); transition = one operation compared with plain surroundings, or all settings compared; an outcome is a distinct (operation, surroundings, result)"
ASSUMPTIONS = ["the random start and the random thresholds depend on the shape only"]
SHARDS = 4
SEAM = True
KINDS = ["hg", "lg", "zernike", "derived", "window", "grid", "convert", "ideal", "simple", "random", "ifta", "patch", "grating", "pack", "gs", "mraf", "propagate", "block", "analysis", "number"]
AMB = ["cwd", "nocwd", "warnings", "numpy_errors", "print_options", "closed_stdout", "seeded", "environment", "tape", "name_scope", "device_scope", "gc_off", "gc_always", "thread", "decimal", "recursion", "other_mode_before"]
GRAPH = ["warnings", "numpy_errors", "closed_stdout", "name_scope", "thread", "decimal", "other_mode_before"]
SLOW_TAPE = ["derived", "analysis", "zernike"]      # TensorFlow needs minutes to derive the gradients of their graphs
PAIRS = ["warnings", "numpy_errors", "tape", "gc_always"]
STARTS = ["plain", "optimized", "no_docs", "hash1", "hash2", "other_cwd", "locale", "strict", "threads", "import_in_thread", "configured"]


def cases(env):
    T = env.thorough
    n = 0
    for k in KINDS:
        for mode in ("eager", "graph"):
            n += 1
            if not T and mode == "graph":       # tracing is slow
                amb = [[a] for a in GRAPH + ([] if k in SLOW_TAPE else ["tape"])]
            else:
                amb = [[a] for a in AMB] + [list(p) for p in itertools.combinations(AMB if T else PAIRS, 2)]
            for q in range(0, len(amb), 12):
                yield {"kind": "ambient", "what": k, "variants": [0, 1, 2] if T else [n // 2 % 2], "mode": mode, "ops": amb[q:q + 12]}
    for mode in ("eager", "graph"):
        for a in KINDS:
            ops = [[a, b] for b in KINDS] if not T else [[a, b, c] for b in KINDS for c in KINDS]
            if mode == "graph" and not T: ops = [[a]]
            yield {"kind": "alone", "mode": mode, "ops": ops}
    for mode in ("eager", "graph"):
        yield {"kind": "refused", "mode": mode, "ops": list(range(18))}
    yield {"kind": "repeat", "mode": "eager", "ops": KINDS}
    for s in (STARTS[1:] if T else []) + ["optimized+hash1+other_cwd", "no_docs+hash2+locale+import_in_thread", "strict+configured", "threads"]:
        yield {"kind": "process", "start": s, "ops": [s]}
    yield {"kind": "import", "ops": [0]}


def settings(growth=False):
    """Every process-wide setting that a library could change; with growth, also what must not grow when something is repeated."""
    import builtins, decimal, gc, locale, logging, os, random, signal, sys, threading, warnings
    import numpy as np, tensorflow as tf
    from tensorflow.python.eager import context
    fft = np.fft
    ft = lambda: len(os.listdir("/proc/self/fd"))
    g = np.random.get_state()
    piles = {"threads": threading.active_count(), "open files": ft()} if growth else {}
    return dict(piles, **{"NumPy error handling": np.geterr(), "NumPy print options": {k: str(v) for k, v in np.get_printoptions().items()}, "NumPy buffer size": np.getbufsize(),
            "NumPy random state": (g[0], g[1].tobytes(), g[2:]), "Python random state": hash(random.getstate()), "TensorFlow seed": context.global_seed(),
            "TensorFlow eager mode": tf.config.functions_run_eagerly(), "TensorFlow executing eagerly": tf.executing_eagerly(), "TensorFlow default device": str(tf.constant(0).device),
            "TensorFlow log level": tf.get_logger().level, "TensorFlow functions": [id(f) for f in (tf.random.uniform, tf.signal.fft2d, tf.signal.ifft2d, tf.cast, tf.where, tf.constant, tf.Variable, tf.function)],
            "TensorFlow threads": (tf.config.threading.get_intra_op_parallelism_threads(), tf.config.threading.get_inter_op_parallelism_threads()),
            "NumPy functions": [id(f) for f in (fft.fft2, fft.ifft2, fft.fftshift, np.array, np.zeros, np.meshgrid, np.random.random)],
            "warning filters": list(map(str, warnings.filters)), "showwarning": id(warnings.showwarning), "working directory": os.getcwd(), "environment": dict(os.environ), "module path": list(sys.path),
            "standard output": (id(sys.stdout), id(sys.stderr), id(builtins.print)), "locale": locale.setlocale(locale.LC_ALL), "decimal context": str(decimal.getcontext()).split("flags")[0],
            "recursion limit": sys.getrecursionlimit(), "garbage collection": (gc.isenabled(), gc.get_threshold()), "log handlers": (logging.root.level, len(logging.root.handlers)),
            "signal handlers": [str(signal.getsignal(q)) for q in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)], "hooks": (id(sys.excepthook), id(sys.displayhook), sys.gettrace() is None, sys.getprofile() is None)})


def unchanged(env, before, what):
    after = settings("threads" in before)
    for k in before:
        env.check(before[k] == after[k], lambda: "%s changed: %s: %s before, %s after" % (what, k, str(before[k])[:200], str(after[k])[:200]))


class Around(object):
    """One kind of surroundings; undone afterwards whatever the operation did."""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        import contextlib, decimal, gc, os, random, shutil, sys, tempfile, warnings
        import numpy as np, tensorflow as tf
        self.s = s = contextlib.ExitStack()
        n = self.name
        if n in ("cwd", "nocwd"):
            # deeper than any directory that relative paths may start from
            old, top = os.getcwd(), tempfile.mkdtemp(prefix="mc_p33_")
            new = os.path.join(top, "a", "b", "c", "d")
            os.makedirs(new)
            s.callback(shutil.rmtree, top)
            s.callback(os.chdir, old)
            os.chdir(new)
            if n == "nocwd": os.rmdir(new)
        elif n == "warnings":
            s.enter_context(warnings.catch_warnings())
            warnings.simplefilter("error")
        elif n == "numpy_errors":
            s.enter_context(np.errstate(divide="raise", over="raise", invalid="raise"))
        elif n == "print_options":
            s.enter_context(np.printoptions(precision=1, threshold=2, edgeitems=1, suppress=True, legacy="1.13"))
        elif n == "closed_stdout":
            old = sys.stdout
            f = open(os.devnull, "w"); f.close()
            sys.stdout = f
            s.callback(setattr, sys, "stdout", old)
        elif n == "seeded":
            g, r = np.random.get_state(), random.getstate()
            s.callback(np.random.set_state, g); s.callback(random.setstate, r)
            np.random.seed(5); random.seed(5)
        elif n == "environment":
            keep = dict(os.environ)
            s.callback(lambda: (os.environ.clear(), os.environ.update(keep)))
            os.environ.clear()
            os.environ.update(HOME="/nonexistent", TMPDIR="/nonexistent", PATH="")
        elif n == "tape":
            t = s.enter_context(tf.GradientTape(persistent=True))
            t.watch(tf.constant(1.0))
        elif n == "name_scope": s.enter_context(tf.name_scope("surroundings"))
        elif n == "device_scope": s.enter_context(tf.device("/CPU:0"))
        elif n == "gc_off":
            if gc.isenabled(): s.callback(gc.enable)
            gc.disable()
        elif n == "gc_always":
            t = gc.get_threshold()
            s.callback(gc.set_threshold, *t)
            gc.freeze(); s.callback(gc.unfreeze)
            gc.set_threshold(20, 5, 100)
        elif n == "decimal":
            s.enter_context(decimal.localcontext(decimal.Context(prec=1)))
        elif n == "recursion":
            t = sys.getrecursionlimit()
            s.callback(sys.setrecursionlimit, t)
            sys.setrecursionlimit(t * 4)
        return self

    def __exit__(self, *a):
        self.s.close()


def call(f, names):
    """f() in the surroundings."""
    import threading
    import tensorflow as tf
    if "other_mode_before" in names:        # the same computation before, in the other mode
        m = tf.config.functions_run_eagerly()
        tf.config.run_functions_eagerly(not m)
        try: f()
        finally: tf.config.run_functions_eagerly(m)
    if "thread" in names:
        out = []

        def body():
            try: out.append((f(), None))
            except BaseException as e: out.append((None, e))
        t = threading.Thread(target=body)
        t.start(); t.join()
        if out[0][1] is not None: raise out[0][1]
        return out[0][0]
    return f()


def silent(f):
    """The result and what was written to the standard streams, by Python or below it."""
    import io, os, sys, tempfile
    sys.stdout.flush(); sys.stderr.flush()
    keep, text = os.dup(1), io.StringIO()
    old = sys.stdout
    with tempfile.TemporaryFile() as t:
        os.dup2(t.fileno(), 1)
        sys.stdout = text
        try: r = f()
        finally:
            sys.stdout = old
            os.dup2(keep, 1); os.close(keep)
        t.seek(0)
        return r, text.getvalue() + t.read().decode(errors="replace")


def run_case(env, case):
    import numpy as np, tensorflow as tf, boot
    from props import p31
    tf.config.run_functions_eagerly(case.get("mode") == "eager")
    boot.SEAM.script = lambda shape: (np.arange(int(np.prod(shape))) * 7 % 13 / 13.0).reshape(shape)
    try:
        globals()[case["kind"]](env, case, p31)
    finally:
        boot.SEAM.script = None
        tf.config.run_functions_eagerly(False)


def ambient(env, case, p31):
    import numpy as np
    for v in case["variants"]:
        f = p31.make(case["what"], v)
        want = [np.array(q, copy=True) for q in f()]
        env.step()
        for k, names in enumerate(case["ops"]):
            env.failed_at = k
            what = "%s %d with %s" % (case["what"], v, " and ".join(names))
            stack, err, got = [], None, None
            before = settings()
            try:
                for n in names: stack.append(Around(n)); stack[-1].__enter__()
                try: got = call(f, names)
                except Exception as e: err = e
            finally:
                for a in reversed(stack): a.__exit__()
            env.step()
            env.check(err is None, lambda: "%s raised %s: %s" % (what, type(err).__name__, str(err)[:300]))
            p31.equal(env, got, want, what)
            unchanged(env, before, what)
            env.state((case["what"], v, case["mode"], names))
            env.outcome((case["what"], v, names))


def alone(env, case, p31):
    fs = {}
    for k, word in enumerate(case["ops"]):
        env.failed_at = k
        before = settings()
        for q, w in enumerate(word):
            if (w, q % 3) not in fs: fs[w, q % 3] = p31.make(w, q % 3)
            _, text = silent(fs[w, q % 3])
            env.step()
            env.check(text == "", lambda: "%s printed %r" % (w, text[:200]))
            unchanged(env, before, "%s (after %s)" % (w, word[:q]))
        env.state((case["mode"], word))
        env.outcome((case["mode"], word))


def refused(env, case, p31):
    import numpy as np, pySLM2 as S, optics
    from pySLM2.analysis import zernike_decomposition
    d = optics.Dev(5, 4)
    s, l = optics.dmd(S, d), optics.lcos(S, d)
    m = S.DMDSimulation(s, 1, 1)
    bad = [lambda: s.calculate_dmd_state(1.0, np.ones((4, 5)), method="none"), lambda: s.calculate_dmd_state(np.ones((3, 3)), 1.0), lambda: s.calculate_dmd_state("beam", 1.0), lambda: l.calculate_hologram(1.0, 1.0, method="mraf"),
           lambda: l.calculate_hologram(1.0, 1.0, method="none"), lambda: m.block_zeroth_order(), lambda: m.propagate_to_image("beam"), lambda: S.Zernike(1.0, 1.0, 2, 1), lambda: S.Zernike(1.0, 1.0, 1, 3),
           lambda: S.DMDSimulation(l), lambda: s.circular_patch(1, 1, "a", 0, 0, 3), lambda: s.set_dmd_grating_state(np.ones((2, 2))),
           lambda: l.calculate_hologram(1.0, 1.0, method="none", N=2), lambda: l.calculate_hologram(np.ones((3, 3)), 1.0, N=1), lambda: l.calculate_hologram(1.0, 1.0, method="mraf", N=1, signal_window=np.ones((2, 2))),
           lambda: s.calculate_dmd_state(1.0, 1.0, method="none", N=1), lambda: s.calculate_dmd_state(1.0, 1.0, method="ifta", N=1), lambda: l.calculate_hologram(1.0, 1.0, N="many")]
    for k in case["ops"]:
        before = settings()
        try:
            silent(bad[k])
            raised = False
        except Exception:
            raised = True
        env.step()
        env.check(raised, lambda: "request %d was not refused" % k)
        unchanged(env, before, "refused request %d" % k)
        env.state(("refused", k)); env.outcome(("refused", k))


def repeat(env, case, p31):
    """Nothing piles up: files, threads."""
    import gc
    for k, w in enumerate(case["ops"]):
        env.failed_at = k
        f = p31.make(w, 1)
        f()
        gc.disable()
        try:
            before = settings(True)
            for _ in range(10): f(); env.step()
            unchanged(env, before, "10 times " + w)
        finally:
            gc.enable()
        env.state(("repeat", w)); env.outcome(("repeat", w))


_plain = {}


def child(env, start):
    """All kinds of computation in a fresh process: {kind: results}."""
    import json, os, pickle, subprocess, sys, tempfile
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    e = dict(os.environ)
    cwd = tempfile.mkdtemp(prefix="mc_p33_")
    flags, opts = [], {"start": start, "dtype": env.dtype}
    start = start.split("+")
    for q in start:
        if q == "optimized": flags = ["-O"]
        if q == "no_docs": flags = ["-OO"]
        if q.startswith("hash"): e["PYTHONHASHSEED"] = q[4:]
        if q == "locale": e.update(LC_ALL="C", LANG="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", TZ="Asia/Kathmandu")
        if q == "threads": e.pop("OMP_NUM_THREADS", None)
    out = os.path.join(cwd, "out.pickle")
    try:
        r = subprocess.run([sys.executable] + flags + [os.path.join(here, "p33child.py"), json.dumps(opts), out], cwd=cwd if "other_cwd" in start else None, env=e, capture_output=True, text=True)
        if not os.path.exists(out):
            return None, r.stderr[-800:], r.stdout
        with open(out, "rb") as f: return pickle.load(f), "", r.stdout
    finally:
        if os.path.exists(out): os.unlink(out)
        os.rmdir(cwd)


def process(env, case, p31):
    if env.dtype not in _plain:
        _plain[env.dtype] = child(env, "plain")
    want, err, text = _plain[env.dtype]
    env.check(want is not None, lambda: "plain process failed: " + err)
    got, err, text = child(env, case["start"])
    what = "process started with %s" % case["start"]
    env.check(got is not None, lambda: "%s failed: %s" % (what, err))
    env.check(text == "", lambda: "%s: printed %r" % (what, text[:200]))
    for k in want:
        env.step()
        if isinstance(got[k], str) or isinstance(want[k], str):
            env.check(isinstance(got[k], str) == isinstance(want[k], str), lambda: "%s: %s: %s" % (what, k, got[k] if isinstance(got[k], str) else want[k]))
            continue
        p31.equal(env, got[k], want[k], "%s, %s" % (what, k))
        env.state(("process", case["start"], k)); env.outcome(("process", case["start"], k))


def imported(env, r, what):
    for k in r["before"]:
        env.check(r["before"][k] == r["after"][k], lambda: "importing the package changed: %s: %s before, %s after" % (k, str(r["before"][k])[:200], str(r["after"][k])[:200]))


globals()["import"] = lambda env, case, p31: _import(env)


def _import(env):
    r, err, text = child(env, "import")
    env.check(r is not None, lambda: "importing failed: " + err)
    env.check(text == "", lambda: "importing printed %r" % text[:200])
    imported(env, r, "import")
    env.step(); env.state("import"); env.outcome("import")
