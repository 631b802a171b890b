"""P28: sampling a profile is pointwise, whatever the container, number, order and shape of the points."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of point sequences (all words up to a length over an alphabet of special points), of coordinate containers and of broadcast shapes, executed on the real profile classes and compared with the value of every point alone and with a reference evaluator"
BOUNDS = {
    "quick": "17 profiles (every class, real, complex, windows, derived by arithmetic, shift, rotation and as complex) x every word of length 0..4 over 5 points (centre, axis, on the window and aperture rim, outside everything, generic): one call per word, in each of 20 coordinate containers in turn; every container and 12 broadcast shape pairs with every profile; 33 numbers of points from 15 to 65537 around powers of two, as line, column and row; calls of all shapes alternate on the same objects (traced), fresh objects untraced for words up to 2; both precisions",
    "thorough": "all words up to length 5, and every word up to length 3 in every container"}
RULE = "state = (profile, word of points, container); transition = one evaluation; an outcome is a distinct (profile, result)"
ASSUMPTIONS = ["the points are exactly representable in both precisions, so that no container changes them"]
SHARDS = 4
HG = ["HG", 0.25, -0.5, 1.5, 2.0, 1, 2]
LG = ["LG", 0.25, -0.5, 1.0, 2.0, 1, 1]
PROFILES = [HG, LG, ["SG", 0.25, -0.5, 2.0, 2.5, 1.5], ["Z", 1.5, 2.5, 3, -1, True, False], ["Z", 0.75, 2.5, 2, 0, False, True], ["Z", 2.0, 2.5, 0, 0, True, False], ["Z", 1.25, 2.5, 0, 0, False, True], ["Z", 1.5, 2.5, 1, 1, True, True], ["LG", 0.25, -0.5, 1.0, 2.0, 0, 0], ["HG", 0.25, -0.5, 1.5, 2.0, 0, 0], ["K", ["f", 1.5]], ["K", ["c", 0.5, -2.0]],
            ["WR", 0.25, -0.5, 4.5, 4.0], ["WC", 0.0, 0.0, 2.5], ["+", ["*", HG, LG], ["K", ["f", 0.5]]], ["shift", ["asc", HG], ["f", 0.5], ["i", -1]], ["rot", ["-", ["WC", 0.0, 0.0, 2.5], HG], ["f", 0.7]]]
POINTS = [(0.25, -0.5), (0.0, 0.0), (2.5, 0.0), (-1.5, 2.0), (7.0, -6.5)]
INTS = [(0, 0), (2, -1), (-3, 4), (7, -6)]
FLOATS = ["list", "tuple", "f64", "f32", "f16", "fortran", "strided", "reversed", "readonly", "column", "row", "cube", "tensor", "npscalars"]
INTEGER = ["ilist", "i64", "i32", "i16", "i8", "ituple"]
SHAPES = [((3, 1), (1, 4)), ((), (4,)), ((4,), (3, 4)), ((2,), ()), ((1, 1), (3, 4)), ((2, 1, 3), (4, 1)), ((0,), (0,)), ((0, 3), (0, 3)), ((3, 1), (1, 0)), ((1,), (1,)), ((5, 1), (5, 5)), ((), ())]


MANY = [15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10001, 65535, 65536, 65537]


def cases(env):
    top = 5 if env.thorough else 4
    for p in range(len(PROFILES)):
        ws = [list(w) for n in range(top + 1) for w in itertools.product(range(len(POINTS)), repeat=n)]
        for c in range(0, len(ws), 200):
            yield {"kind": "words", "mode": "graph", "p": p, "ops": ws[c:c + 200], "all": False}
        if env.thorough:
            ws = [w for w in ws if len(w) <= 3]
            for c in range(0, len(ws), 40):
                yield {"kind": "words", "mode": "graph", "p": p, "ops": ws[c:c + 40], "all": True}
        yield {"kind": "words", "mode": "eager", "p": p, "ops": [w for w in ws if len(w) <= 2], "all": False}
        yield {"kind": "containers", "p": p, "ops": FLOATS + INTEGER}
        for mode in ("eager", "graph") if p in (2, 4, 14) or env.thorough else ("eager",):
            yield {"kind": "many", "mode": mode, "p": p, "ops": MANY if mode == "eager" else MANY[::5]}
        yield {"kind": "shapes", "p": p, "ops": list(range(len(SHAPES)))}


def pack(v, kind, env):
    import numpy as np, tensorflow as tf
    v = np.asarray(v, float)
    if kind in ("ilist",): return [int(a) for a in v]
    if kind == "ituple": return tuple(int(a) for a in v)
    if kind in ("i64", "i32", "i16", "i8"): return v.astype({"i64": np.int64, "i32": np.int32, "i16": np.int16, "i8": np.int8}[kind])
    if kind == "list": return [float(a) for a in v]
    if kind == "npscalars": return [np.float64(a) for a in v]
    if kind == "tuple": return tuple(float(a) for a in v)
    if kind in ("f64", "f32", "f16"): return v.astype({"f64": np.float64, "f32": np.float32, "f16": np.float16}[kind])
    if kind == "fortran": return np.asfortranarray(np.stack([v, v[::-1]]))[:1].reshape(1, -1)
    if kind == "strided": return np.repeat(v, 3)[::3]
    if kind == "reversed": return v[::-1].copy()[::-1]
    if kind == "readonly":
        a = v.copy(); a.setflags(write=False); return a
    if kind == "column": return v.reshape(-1, 1)
    if kind == "row": return v.reshape(1, -1)
    if kind == "cube": return v.reshape(1, -1, 1)
    if kind == "tensor": return tf.constant(v, dtype=env.real)
    raise KeyError(kind)


_objects = {}


def profile(S, p, fresh):
    import ref
    if fresh:
        return ref.build(S, PROFILES[p])
    if p not in _objects:
        _objects[p] = ref.build(S, PROFILES[p])
    return _objects[p]


def alone(env, prof, p, x, y):
    """Value of one point sampled alone (checked against the reference once)."""
    import numpy as np, ref
    key = (p, x, y)
    if key not in _objects:
        v = np.asarray(ref.compare_profile(env, prof, PROFILES[p], float(x), float(y), "%s at (%s, %s)" % (PROFILES[p], x, y)))
        sure = bool(np.all(np.isfinite(ref.ev(PROFILES[p], float(x), float(y))[1])))     # else: a discontinuity within rounding
        _objects[key] = v, sure
    return _objects[key]


def check(env, prof, p, xs, ys, points, shape, what):
    import numpy as np
    got = prof(xs, ys)
    env.step()
    want = np.array([alone(env, prof, p, *q)[0] for q in points], dtype=env.cplx if _complex(env, prof, p) else env.real).reshape(shape)
    sure = np.array([alone(env, prof, p, *q)[1] for q in points], dtype=bool).reshape(shape)
    env.count("points_compared", int(sure.sum()))
    env.check(isinstance(got, (np.ndarray, np.generic)), lambda: "%s: result is %s" % (what, type(got)))
    # vectorized and scalar kernels may round differently
    big = max(1.0, float(np.max(np.abs(want))) if want.size else 1.0)
    env.close(got, want, what, scale=big, tol32=4e-6, tol64=1e-14, skip=~sure, dtype=want.dtype)
    env.outcome_array(want)


def _complex(env, prof, p):
    import numpy as np
    return np.iscomplexobj(alone(env, prof, p, *POINTS[0])[0])


def run_case(env, case):
    import numpy as np, pySLM2 as S, tensorflow as tf
    p = case["p"]
    tf.config.run_functions_eagerly(case.get("mode") == "eager")
    try:
        prof = profile(S, p, case.get("mode") == "eager")
        e = PROFILES[p]
        if case["kind"] == "words":
            for k, w in enumerate(case["ops"]):
                env.failed_at = k
                pts = [POINTS[q] for q in w]
                for c in (FLOATS if case["all"] else [FLOATS[(k + p) % len(FLOATS)]]):
                    if c == "fortran" and not pts: c = "list"
                    if not pts and c in ("list", "tuple", "npscalars"): c = "f64"
                    xs, ys = (pack([q[i] for q in pts], c, env) for i in (0, 1))
                    check(env, prof, p, xs, ys, pts, np.shape(xs), "%s at points %s (%s)" % (e, pts, c))
                    env.state((p, w, c, case["mode"]))
        elif case["kind"] == "many":
            for k, n in enumerate(case["ops"]):
                env.failed_at = k
                pts = [POINTS[(q * q + q // 3) % 5] for q in range(n)]
                x, y = (np.array([q[i] for q in pts]) for i in (0, 1))
                for a, b in ((x, y), (x[:, None], y[:, None]), (x[None, :], y[None, :])) if n < 5000 else ((x, y),):
                    check(env, prof, p, a, b, pts, a.shape, "%s at %d points" % (e, n))
                if n < 2100:
                    check(env, prof, p, x[:, None], np.array([-0.5, 2.0]), [(float(u), v) for u in x for v in (-0.5, 2.0)], (n, 2), "%s at %d x 2 points" % (e, n))
                env.state((p, n, case["mode"]))
        elif case["kind"] == "containers":
            for k, c in enumerate(case["ops"]):
                env.failed_at = k
                for pts in (POINTS, POINTS[::-1]) if c in FLOATS else (INTS, INTS[:1]):
                    xs, ys = (pack([q[i] for q in pts], c, env) for i in (0, 1))
                    keep = [np.array(xs), np.array(ys)]
                    check(env, prof, p, xs, ys, pts, np.shape(xs), "%s at %s (%s)" % (e, pts, c))
                    env.check(np.array_equal(keep[0], xs) and np.array_equal(keep[1], ys), "%s changed its coordinates (%s)" % (e, c))
                    env.state((p, c, len(pts)))
            for x, y in ((1, -2), (0.25, -0.5), (np.float64(0.25), np.float32(-0.5)), (np.int64(2), np.array(0.0))):
                check(env, prof, p, x, y, [(float(x), float(y))], (), "%s at the numbers %r, %r" % (e, x, y))
        else:
            for k, i in enumerate(case["ops"]):
                env.failed_at = k
                a, b = SHAPES[i]
                vx, vy = [q[0] for q in POINTS], [q[1] for q in POINTS]
                X = np.array([vx[n % 5] for n in range(int(np.prod(a)))]).reshape(a)
                Y = np.array([vy[(2 * n + 1) % 5] for n in range(int(np.prod(b)))]).reshape(b)
                bx, by = np.broadcast_arrays(X, Y)
                check(env, prof, p, X, Y, list(zip(bx.ravel().tolist(), by.ravel().tolist())), bx.shape, "%s on shapes %s and %s" % (e, a, b))
                env.state((p, a, b))
        env.sample({"case": dict(case, ops=case["ops"][:4])})
    finally:
        tf.config.run_functions_eagerly(False)
