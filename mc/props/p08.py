"""P08: any accepted profile becomes a full-frame array of the configured precision."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of profile kinds, element types, planes, targets and device shapes on the real conversion against a reference"
BOUNDS = {
    "quick": "29 kinds of profile (function profiles of every class, derived, arrays of 7 element types and 3 memory layouts, tensors of 5 types, numbers) x plane x real/complex x 8 device shapes x 3 device classes, every ordered pair of conversions on one device; both precisions",
    "thorough": "27 device shapes"}
RULE = "state = (kind, plane, target, shape); transition = one conversion compared with the reference; an outcome is a distinct tensor"
ASSUMPTIONS = ["complex-valued profiles are only converted to complex targets"]
SHARDS = 4
FAST_TRACE = True

FN = {"hg": ["HG", 0.3, -0.2, 1.5, 2.5, 1, 0], "sg": ["SG", 0.3, -0.2, 1.5, 2.5, 2.0], "z": ["Z", 1.0, 40.0, 3, 1, True, True], "wr": ["WR", 0.3, -0.2, 3.0, 2.0], "wc": ["WC", 0.3, -0.2, 1.7],
      "k": ["K", ["f", 1.25]], "sum": ["+", ["HG", 0.3, -0.2, 1.5, 2.5, 1, 0], ["K", ["f", 1.25]]], "neg": ["neg", ["K", ["f", 1.25]]], "shift": ["shift", ["HG", 0.3, -0.2, 1.5, 2.5, 1, 0], ["f", 0.5], ["f", 1.5]],
      "lg": ["LG", 0.3, -0.2, 1.5, 2.5, 1, 0], "kc": ["K", ["c", 1.25, -0.5]], "asc": ["asc", ["HG", 0.3, -0.2, 1.5, 2.5, 1, 0]]}
CPLX = {"lg", "kc", "asc", "c64", "c128", "t_c64", "t_c128", "complex", "ncomplex"}
KINDS = sorted(FN) + ["f4", "f8", "i4", "i8", "u1", "c64", "c128", "T", "strided", "t_f4", "t_f8", "t_c64", "t_c128", "t_i4", "int", "float", "complex", "nfloat", "ncomplex"]


def cases(env):
    shapes = [[1, 1], [2, 2], [3, 2], [2, 5], [4, 3], [5, 5], [6, 4], [1, 4]] if not env.thorough else [list(p) for p in itertools.product((1, 2, 3, 5, 6), (1, 2, 3, 4, 7))]
    for n, N in enumerate(shapes):
        for dev in ("DMD", "LCOS", "SLM") if n < 4 else ("DMD",):
            for k in KINDS:
                yield {"N": N, "kind": k, "dev": dev, "mode": "eager"}
    for k in sorted(FN):
        yield {"N": [3, 4], "kind": k, "dev": "DMD", "mode": "graph"}
    import tours
    conv = [[k, f, c] for k in ("hg", "lg", "k", "f8", "t_f4", "int") for f in (0, 1) for c in (0, 1) if c or k not in CPLX]
    for s in tours.segments(tours.de_bruijn(conv, 3 if env.thorough else 2), 200, 2):
        yield {"N": [4, 3], "dev": "DMD", "ops": s, "mode": "graph"}


def make(kind, N, grids, S):
    """(object to convert, values on the Fourier plane, values on the image plane)"""
    import numpy as np, tensorflow as tf, ref
    if kind in FN:
        return ref.build(S, FN[kind]), ref.ev(FN[kind], *grids[0]), ref.ev(FN[kind], *grids[1])
    shp = (N[1], N[0])
    base = (np.arange(shp[0] * shp[1]) * 7 % 11).reshape(shp)
    ty = kind[2:] if kind.startswith("t_") else kind
    if ty in ("f4", "f8"): a = (base * 0.37 - 1.2).astype(ty)
    elif ty in ("c64", "c128"): a = (base * 0.37 - 1.2 + 1j * (base * base % 5)).astype("complex" + ty[1:])
    elif ty in ("i4", "i8", "u1"): a = base.astype(ty)
    elif ty == "T": a = np.ascontiguousarray((base * 0.5 - 1).T).T
    elif ty == "strided":
        a = np.zeros((2 * shp[0], 3 * shp[1])); a[::2, ::3] = base * 0.25; a = a[::2, ::3]
    else:
        v = {"int": -3, "float": 0.375, "complex": 0.5 - 1.5j, "nfloat": np.float64(0.625), "ncomplex": np.complex128(1.5 + 0.5j)}[kind]
        w = np.full(shp, v)
        return v, (w, abs(w)), (w, abs(w))
    w = a.astype(complex) if np.iscomplexobj(a) else a.astype(float)
    return (tf.constant(a) if kind.startswith("t_") else a), (w, abs(w)), (w, abs(w))


def convert(env, slm, obj, want, fourier, cplx, what, default=False):
    import numpy as np, tensorflow as tf
    t = slm.profile_to_tensor(obj) if default else slm.profile_to_tensor(obj, at_fourier_plane=fourier, complex=cplx)
    env.step()
    env.check(isinstance(t, tf.Tensor), lambda: "%s: result is %s" % (what, type(t)))
    env.check(t.dtype.as_numpy_dtype == (env.cplx if cplx else env.real), lambda: "%s: dtype %s" % (what, t.dtype))
    env.check(tuple(t.shape) == (slm.Ny, slm.Nx), lambda: "%s: static shape %s" % (what, t.shape))
    v, err = want
    env.close(t.numpy(), v, what, scale=np.where(np.isfinite(err), 50 * err + 1e-6 * abs(v), 1e30), tol32=2.0 ** -24, tol64=2.0 ** -53)
    env.outcome_array(t.numpy())


def run_case(env, case):
    import numpy as np, tensorflow as tf, pySLM2 as S, optics, ref
    tf.config.run_functions_eagerly(case["mode"] == "eager")
    try:
        nx, ny = case["N"]
        d = optics.Dev(nx, ny, 0.5, 0.5, 8.0)
        slm = {"DMD": optics.dmd, "LCOS": optics.lcos, "SLM": lambda S, d: S.SLM(d.lam, d.foc, d.Nx, d.Ny, d.px)}[case["dev"]](S, d)
        ref.EPS = 2.0 ** -53 if env.f64 else 2.0 ** -24
        grids = []
        for g in (d.fgrid(), d.igrid()):
            grids.append([a.astype(env.real).astype(float) for a in g])
        # image-plane positions carry a rounding error of the reference formula's order
        if "ops" in case:
            made = {}
            for k, (kind, f, c) in enumerate(case["ops"]):
                env.failed_at = k
                if kind not in made:
                    made[kind] = make(kind, case["N"], grids, S)
                obj, wf, wi = made[kind]
                env.state((case["N"], case["ops"][max(0, k - 1):k + 1]))
                convert(env, slm, obj, wf if f else wi, bool(f), bool(c), "conversion %d: %s at %s, complex=%s" % (k, kind, "Fourier plane" if f else "image plane", bool(c)))
            return
        obj, wf, wi = make(case["kind"], case["N"], grids, S)
        for f in (True, False):
            for c in (True, False) if case["kind"] not in CPLX else (True,):
                env.state((case["N"], case["kind"], case["dev"], f, c))
                convert(env, slm, obj, wf if f else wi, f, c, "%s at %s, complex=%s" % (case["kind"], "Fourier plane" if f else "image plane", c))
        if case["kind"] not in CPLX:
            convert(env, slm, obj, wf, True, False, "%s with defaults" % case["kind"], default=True)
        env.sample({"kind": case["kind"], "shape": case["N"]})
    finally:
        tf.config.run_functions_eagerly(False)
