"""P32: an argument means the same however it is given."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the ways to write a call (every split into positional and named arguments, two orders of the named ones, every subset of arguments left at their documented default or omitted, every kind of number in every argument) on the real code, every call compared with the fully spelled out one"
BOUNDS = {
    "quick": "31 public constructors, methods and functions with 1 to 8 arguments: every prefix of positional arguments x every subset of optional arguments at the documented default x every omission of those x 2 orders of the named rest (at most 160 forms per subset of defaults); every numeric argument alone and all together as int, float, NumPy int32, int64, float32 and float64, every flag as Python and NumPy boolean; the values are not symmetric in any two arguments; both precisions",
    "thorough": "every order of up to 5 named arguments; a second set of values"}
RULE = "state = (callable, values, form of the call); transition = one call compared with the fully named one; an outcome is a distinct (callable, values, result)"
ASSUMPTIONS = ["the documented defaults are those in the signatures and docstrings of the pinned commit: method 'random' and 'gs', N = 200, s = 1, r = 10, mixing_factor = 0.4, amplitude 1, phases 0, no padding, positive order, mode indices 0, normalized Zernike polynomials that end at the radius"]
SHARDS = 4
SEAM = True
FAST_TRACE = True
REQ = object()


def catalogue(env):
    """name -> (parameters as (name, value, second value, default or REQ, kind), number of parameters that may be positional, call)

    kind: n = number, i = integer, b = flag, - = anything else.  call(args, kwargs) returns what can be observed of the result."""
    import numpy as np, pySLM2 as S
    from pySLM2 import analysis
    C = {}
    pts = np.array([-2.0, -0.75, 0.0, 0.5, 1.25, 2.5])
    gx, gy = np.meshgrid(pts, pts[::-1] + 0.125)

    def prof(names):
        def build(cls):
            def call(a, k):
                p = cls(*a, **k)
                return [p(gx, gy)] + [float(getattr(p, n)) for n in names]
            return call
        return build

    def add(name, params, call, npos=None):
        C[name] = (params, len(params) if npos is None else npos, call)

    four = [("x0", .5, -.25, REQ, "n"), ("y0", -1.0, 2.0, REQ, "n"), ("a", 3.0, -.5, REQ, "n"), ("w", 2.0, 4.0, REQ, "n")]
    add("HermiteGaussian", four + [("n", 2, 1, 0, "i"), ("m", 1, 3, 0, "i")], prof(["x0", "y0", "a", "w", "n", "m"])(S.HermiteGaussian))
    add("LaguerreGaussian", four + [("l", 2, 1, 0, "i"), ("p", 1, 3, 0, "i")], prof([])(S.LaguerreGaussian))
    add("SuperGaussian", four + [("p", 2.0, 3.0, 1.0, "n")], prof(["x0", "y0", "a", "w", "p"])(S.SuperGaussian))
    add("Zernike", [("a", 3.0, -.5, REQ, "n"), ("radius", 2.0, 1.5, REQ, "n"), ("n", 4, 3, 0, "i"), ("m", -2, 1, 0, "i"), ("normalize", False, False, True, "b"), ("extrapolate", True, True, False, "b")],
        prof(["a"])(S.Zernike))
    add("ConstantProfile", [("c", 3.0, -.5, 0.0, "n")], prof([])(S.ConstantProfile))
    add("RectangularWindowRectangle", four[:2] + [("wx", 2.0, 4.0, REQ, "n"), ("wy", 3.0, 1.0, REQ, "n")], prof([])(S.RectangularWindowRectangle))
    add("RectangularWindowCircular", four[:2] + [("r", 2.0, 3.0, REQ, "n")], prof([])(S.RectangularWindowCircular))
    base = lambda: S.HermiteGaussian(.5, -1.0, 3.0, 2.0, 1, 0)
    at = lambda p: [p(gx, gy)]
    add("shift", [("dx", 1.0, .5, REQ, "n"), ("dy", -2.0, .25, REQ, "n")], lambda a, k: at(base().shift(*a, **k)))
    add("rotate", [("theta", 1.0, -.5, REQ, "n")], lambda a, k: at(base().rotate(*a, **k)))
    add("rescale_x", [("m", 2.0, -.5, REQ, "n")], lambda a, k: at(base().rescale_x(*a, **k)))
    add("rescale_y", [("m", 2.0, -.5, REQ, "n")], lambda a, k: at(base().rescale_y(*a, **k)))
    add("profile(x, y)", [("x", gx, gy, REQ, "-"), ("y", gy, gx + 1, REQ, "-")], lambda a, k: [base()(*a, **k)])

    def draws(n):
        return lambda shape: np.resize(np.arange(n) * 7 % 13 / 13.0, shape)

    def device(s):
        out = [s.Nx, s.Ny, float(s.pixel_size), float(s.wavelength), float(s.focal_length), float(s.scaling_factor)]
        out += [np.asarray(v)[:3, -3:] for v in s.fourier_plane_grid] + [np.asarray(v)[:3, -3:] for v in s.image_plane_grid]
        return out

    def dmdev(s):
        s.set_dmd_grating_state(0.75, 0.25, 1.0, method="ideal")
        return device(s) + [bool(s.negative_order), float(s.theta), s.dmd_state[:4, -4:], s.dmd_state[-4:, :4]] + [float(v) for v in s.first_order_origin]
    optical = [("wavelength", .5, .25, REQ, "n"), ("focal_length", 8.0, 3.0, REQ, "n")]
    chip = [("Nx", 5, 3, REQ, "i"), ("Ny", 4, 6, REQ, "i"), ("pixel_size", 2.0, .25, REQ, "n")]
    grat = [("periodicity", 4.0, 3.0, REQ, "n"), ("theta", 2.0, -.5, REQ, "n")]
    neg = [("negative_order", True, True, False, "b")]
    add("SLM", optical + chip, lambda a, k: device(S.SLM(*a, **k)))
    add("LCOS_SLM", optical + chip, lambda a, k: (lambda s: device(s) + [s.slm_state])(S.LCOS_SLM(*a, **k)))
    add("DMD", optical + grat + chip + neg, lambda a, k: dmdev(S.DMD(*a, **k)))

    def preset(f):
        try:
            return [v.copy() if isinstance(v, np.ndarray) else v for v in f()]
        finally:            # the coordinate grids of large devices must not pile up in this process
            for m in vars(S.SLM).values():
                if hasattr(m, "cache_clear"): m.cache_clear()
    for n in ("DLP9500", "DLP7000", "DLP9000"):
        add(n, optical + grat + neg, lambda a, k, n=n: preset(lambda: dmdev(getattr(S, n)(*a, **k))))
    add("PLUTO_2", optical, lambda a, k: preset(lambda: device(S.PLUTO_2(*a, **k))))

    lay = np.arange(20).reshape(4, 5)
    frame, phase = (lay * 3 + lay // 5) % 4 < 2, lay * 0.5 - (lay % 3)
    dmd = lambda: S.DMD(.5, 8.0, 3.5, .5, 5, 4, 1.0)
    lcos = lambda: S.LCOS_SLM(.5, 8.0, 5, 4, 1.0)

    def simu(cls, dev):
        def call(a, k):
            s = cls(*([dev] if len(a) == 0 and "slm" not in k and "dmd" not in k else []) + list(a), **k)
            s.propagate_to_image(1.0 + 0.5j)
            return [s.Nx, s.Ny, s.padding_x, s.padding_y, s.image_plane_field, s.input_field, s.get_output_power()] + [np.asarray(v) for v in s.image_plane_padded_grid]
        return call
    d0 = dmd(); d0.dmd_state = frame
    l0 = lcos(); l0.slm_state = phase
    pad = [("padding_x", 2, 1, 0, "-"), ("padding_y", 1, 3, 0, "-")]        # paddings are Python integers only
    add("SLMSimulation", [("slm", l0, d0, REQ, "-")] + pad, simu(S.SLMSimulation, l0))
    add("DMDSimulation", [("dmd", d0, d0, REQ, "-")] + pad, simu(S.DMDSimulation, d0))

    def block(a, k):
        s = S.DMDSimulation(d0, 2, 3)
        s.propagate_to_image(1.0)
        s.block_zeroth_order(*a, **k)
        return [s.image_plane_field]
    add("block_zeroth_order", [("r", 1.0, 2.0, None, "n")], block)

    def prop(a, k):
        s = S.DMDSimulation(d0, 1, 0)
        s.propagate_to_image(*a, **k)
        return [s.image_plane_field]
    add("propagate_to_image", [("input_profile", 2.0, -3.0, REQ, "n")], prop)

    def tens(a, k):
        return [np.asarray(dmd().profile_to_tensor(*a, **k))]
    add("profile_to_tensor", [("profile", S.HermiteGaussian(.5, -1.0, 3.0, 2.0, 1, 0), -3.0, REQ, "-"), ("at_fourier_plane", False, False, True, "b"), ("complex", True, True, False, "b")], tens)

    import boot

    def scripted(f, n=20):
        boot.SEAM.script = draws(n)
        try: return f()
        finally: boot.SEAM.script = None

    def grating(a, k):
        s = dmd()
        scripted(lambda: s.set_dmd_grating_state(*a, **k))
        return [s.dmd_state]
    add("set_dmd_grating_state", [("amp", .5, .75, 1, "n"), ("phase_in", 1.0, -.5, 0, "n"), ("phase_out", 3.0, .25, 0, "n"), ("method", "simple", "ideal", "random", "-")], grating)
    add("set_dmd_grating_state by random", [("amp", .5, .75, 1, "n"), ("phase_in", 1.0, -.5, 0, "n"), ("phase_out", 3.0, .25, 0, "n"), ("method", "random", "random", "random", "-"), ("r", 1.0, 3.0, 10.0, "n")], grating, 4)

    def patch(a, k):
        s = dmd()
        s.dmd_state = frame
        scripted(lambda: s.circular_patch(*a, **k))
        return [s.dmd_state]
    where = [("i", 1.0, 2.5, REQ, "n"), ("j", 3.0, 1.0, REQ, "n"), ("amp", .5, .75, REQ, "n"), ("phase_in", 1.0, -.5, REQ, "n"), ("phase_out", 3.0, .25, REQ, "n"), ("d", 4.0, 5.0, REQ, "n")]
    add("circular_patch", where + [("method", "simple", "ideal", "random", "-")], patch)
    add("circular_patch by random", where + [("method", "random", "random", "random", "-"), ("r", 1.0, 3.0, 10.0, "n")], patch, 7)

    beam, beam2 = 1.0 + 0.25 * (lay % 5) + 0.1j * (lay // 5), 2.0 - 0.1 * lay
    target, target2 = np.exp(-((lay % 5) - 3.0) ** 2 - ((lay // 5) - 1.0) ** 2), (lay % 7) / 7.0 + 0.1
    win, sig = ((lay % 5 > 0) & (lay < 17)).astype(float), ((lay % 5 > 1) & (lay // 5 < 3)).astype(float)

    def holo(a, k):
        s = dmd()
        eta = scripted(lambda: s.calculate_dmd_state(*a, **dict(k)))
        return [float(eta), s.dmd_state]
    both = [("input_profile", beam, beam2, REQ, "-"), ("target_profile", target, target2, REQ, "-")]
    window = ("window", win, 1.0 - sig, None, "-")
    add("calculate_dmd_state", both + [("method", "simple", "ideal", "random", "-"), window], holo)
    add("calculate_dmd_state by random", both + [("method", "random", "random", "random", "-"), window, ("r", 1.0, 3.0, 10.0, "n")], holo, 4)
    add("calculate_dmd_state by ifta", both + [("method", "ifta", "ifta", REQ, "-"), window, ("signal_window", sig, win, REQ, "-"), ("N", 3, 7, 200, "i"), ("s", .5, 2.0, 1.0, "n")], holo, 4)

    def lc(a, k):
        s = lcos()
        scripted(lambda: s.calculate_hologram(*a, **dict(k)))
        return [s.slm_state]
    both = [("input_profile", beam, beam2, REQ, "-"), ("target_amp_profile", target, target2, REQ, "-")]
    add("calculate_hologram", both + [("method", "gs", "gs", "gs", "-"), ("N", 2, 5, 200, "i")], lc, 3)
    add("calculate_hologram by mraf", both + [("method", "mraf", "mraf", REQ, "-"), ("signal_window", sig, win, REQ, "-"), ("N", 2, 5, 200, "i"), ("mixing_factor", 1.0, .75, 0.4, "n")], lc, 3)

    rows, cols = np.indices((6, 7))
    phmap = 0.3 * rows ** 2 - 0.2 * cols + 0.05 * rows * cols ** 2

    def quiet(f):
        def call(a, k):
            import contextlib, io
            with contextlib.redirect_stdout(io.StringIO()):
                r = f(*a, **k)
            return list(r) if isinstance(r, tuple) else [r]
        return call
    pr = [("profile", phmap, phmap[::-1] * 2, REQ, "-"), ("radius", 3.0, 2.0, REQ, "n")]
    add("remove_trivial_phase", pr + [("remove_defocus", True, True, False, "b"), ("verbose", True, True, False, "b")], quiet(analysis.remove_trivial_phase))
    add("zernike_decomposition", pr + [("num_terms", 4, 6, REQ, "i"), ("verbose", True, True, False, "b"), ("reconstruct", True, True, False, "b"), ("extrapolate", True, True, False, "b")], quiet(analysis.zernike_decomposition))
    add("ansi_j_to_n_m", [("idx", 7, 12, REQ, "i")], quiet(analysis.ansi_j_to_n_m))
    return C


def forms(params, npos, atdef, perms):
    """Every way to write the call: (positional names, named names in order)."""
    names = [p[0] for p in params]
    out, seen = [], set()
    for k in range(npos, -1, -1):
        rest = names[k:]
        om = [n for n in rest if n in atdef]
        for drop in itertools.chain.from_iterable(itertools.combinations(om, q) for q in range(len(om), -1, -1)):
            keep = [n for n in rest if n not in drop]
            orders = [keep, keep[::-1]] if not perms or len(keep) > 5 else itertools.permutations(keep)
            for o in orders:
                f = (tuple(names[:k]), tuple(o))
                if f not in seen:
                    seen.add(f)
                    out.append(f)
    return out


def cases(env):
    C = catalogue(env) if env is not None else {}
    for name, (params, npos, _) in C.items():
        opt = [p[0] for p in params if p[3] is not REQ]
        for second in ((False, True) if env.thorough else (False,)):
            for q in range(len(opt) + 1):
                for atdef in itertools.combinations(opt, q):
                    if name == "Zernike" and (("n" in atdef) != ("m" in atdef)) and "m" not in atdef: continue      # n = 0 admits no other m
                    fs = forms(params, npos, atdef, env.thorough)
                    slow = "N" in atdef
                    if len(fs) > (40 if slow else 160) and not env.thorough:
                        fs = fs[::-(-len(fs) // (40 if slow else 160))]
                    big = 24 if name.startswith(("DLP", "PLUTO")) else 1000
                    yield {"kind": "forms", "name": name, "second": second, "default": list(atdef), "ops": [[list(a), list(b)] for a, b in fs[:big]]}
            kinds = [[p[0]] for p in params if p[4] in "ni"]
            if len(kinds) > 1: kinds.append([k[0] for k in kinds])
            flags = [[p[0]] for p in params if p[4] == "b"]
            if flags:
                for at in [[], [f[0] for f in flags]]:
                    yield {"kind": "numbers", "name": name, "second": second, "default": at, "ops": [[f, t] for f in flags + [[f[0] for f in flags]] for t in ("bool", "npbool")]}
            if kinds:
                yield {"kind": "numbers", "name": name, "second": second, "default": [], "ops": [[k, t] for k in kinds for t in ("int", "float", "i32", "i64", "f32", "f64")]}


_memo = {}


def compare(env, got, want, what, tol=0.0):
    import numpy as np
    env.check(len(got) == len(want), lambda: "%s: %d results instead of %d" % (what, len(got), len(want)))
    for g, w in zip(got, want):
        g, w = np.asarray(g), np.asarray(w)
        if not tol:
            if not (g.shape == w.shape and np.array_equal(g, w, equal_nan=g.dtype.kind in "fc")): env.same(g, w, what)
            env.check(g.dtype == w.dtype, lambda: "%s: element type %s instead of %s" % (what, g.dtype, w.dtype))
        elif g.dtype == bool or w.dtype == bool:
            env.same(g, w, what)
        else:
            env.close(g, w, what, scale=max(float(np.max(np.abs(w))), 1e-3) if w.size else 1, tol32=tol, tol64=tol)


def run_case(env, case):
    import numpy as np, tensorflow as tf
    if env.dtype not in _memo: _memo[env.dtype] = catalogue(env)
    params, npos, call = _memo[env.dtype][case["name"]]
    values = {p[0]: (p[3] if p[0] in case["default"] else p[2 if case["second"] else 1]) for p in params}
    # the eager evaluation is faster unless there are hundreds of iterations
    tf.config.run_functions_eagerly("N" not in case["default"])
    try:
        want = call((), values)
        env.step()
        env.outcome((case["name"], case["second"], case["default"]))
        for k, op in enumerate(case["ops"]):
            env.failed_at = k
            env.state((case["name"], case["second"], case["default"], op))
            env.step()
            if case["kind"] == "forms":
                a, b = op
                what = "%s(%s)" % (case["name"], ", ".join([n for n in a] + ["%s=" % n for n in b]))
                got = call(tuple(values[n] for n in a), {n: values[n] for n in b})
                compare(env, got, want, what + " with %s at the default" % case["default"])
            else:
                which, t = op
                conv = {"int": int, "float": float, "i32": np.int32, "i64": np.int64, "f32": np.float32, "f64": np.float64, "bool": bool, "npbool": np.bool_}[t]
                v2, changed = dict(values), []
                for p in params:
                    if p[0] in which and values[p[0]] is not None and ((p[4] == "b") if t.endswith("bool") else float(values[p[0]]).is_integer() if t[0] == "i" else p[4] != "i"):
                        v2[p[0]] = conv(values[p[0]]); changed.append(p[0])
                if not changed: continue
                got = call((), v2)
                # a single-precision number makes the arithmetic around it single precision
                compare(env, got, want, "%s with %s as %s" % (case["name"], ", ".join(changed), t), 3e-6)
    finally:
        tf.config.run_functions_eagerly(False)
    env.sample({"call": case["name"], "default": case["default"]})
