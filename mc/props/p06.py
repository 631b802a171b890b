"""P06: Zernike analysis projects the phase map on the aperture and nothing else."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of coefficient vectors, shapes, apertures and options in the bounds on the real functions against a double-precision projection"
BOUNDS = {
    "quick": "all coefficient vectors {0,1,-0.5}^6 on one 9x12 map, all vectors {0,1}^4, every single term 0..14, an asymmetric map, a ramp and a constant on 7 array shapes x 5 radii, element types float32/64, int, Fortran and strided layouts; every option (num_terms 0..15, reconstruct, extrapolate, verbose, remove_defocus)",
    "thorough": "all vectors {0,1,-0.5}^6 on 3 maps, single terms 0..27, 14 shapes"}
RULE = "state = (map, shape, radius, options); transition = one analysis call compared with the reference; an outcome is a distinct returned coefficient list"
ASSUMPTIONS = ["apertures contain at least one pixel and no pixel centre lies exactly on the rim"]
SHARDS = 4
FAST_TRACE = True

SHAPES = [[9, 12], [8, 8], [7, 7], [5, 11], [12, 4], [1, 6], [10, 9]]
MORE = [[13, 6], [6, 13], [3, 3], [16, 15], [2, 2], [20, 21], [6, 1]]
RADII = [4.25, 2.25, 8.25, 3.75, 60.25]


def cases(env):
    for v in itertools.product([0, 1, -0.5], repeat=6):
        yield {"shape": [9, 12], "r": 4.25, "map": {"coef": list(v)}, "opts": 0}
        if env.thorough:
            yield {"shape": [7, 10], "r": 3.25, "map": {"coef": list(v)}, "opts": 0}
            yield {"shape": [8, 8], "r": 5.25, "map": {"coef": list(v)}, "opts": 0}
    for k, shape in enumerate(SHAPES + (MORE if env.thorough else [])):
        for i, r in enumerate(RADII):
            maps = [{"coef": [0] * t + [1]} for t in range(28 if env.thorough else 15)] + [{"coef": list(v)} for v in itertools.product([0, 1], repeat=4) if sum(v) > 1]
            maps += [{"asym": 1}, {"asym": 2}, {"ramp": 1}, {"const": -2.0}]
            for j, m in enumerate(maps):
                if env.thorough or (j + i + 2 * k) % 3 == 0 or "asym" in m:
                    yield {"shape": shape, "r": r, "map": m, "opts": 1 + (i + j + k) % 4}
    for t in ("f4", "i8", "F", "strided", "i4"):
        for r in (4.25, 3.75):
            yield {"shape": [8, 11], "r": r, "map": {"asym": 1, "type": t}, "opts": 5}
    for r in (3, 4, 6):                              # integer radius (even shapes have no pixel on an integer rim)
        yield {"shape": [8, 12], "r": r, "map": {"asym": 2}, "opts": 5}


def coords(shape):
    import numpy as np
    Ny, Nx = shape
    return np.meshgrid(np.arange(Nx) - (Nx - 1) / 2, (Ny - 1) / 2 - np.arange(Ny))


def nm(j):
    n = 0
    while (n + 1) * (n + 2) // 2 <= j:
        n += 1
    return n, -n + 2 * (j - n * (n + 1) // 2)


def term(n, m, r, X, Y, ext=False):
    import ref
    return ref.leaf(["Z", 1.0, r, n, m, True, ext], X, Y)[0]


def run_case(env, case):
    import contextlib, io
    import numpy as np, tensorflow as tf, pySLM2
    shape, r, m = case["shape"], case["r"], case["map"]
    X, Y = coords(shape)
    inside = X ** 2 + Y ** 2 < r ** 2
    if not inside.any():
        return
    rest = 0.1 * (X * X * 3 % 5) + 0.05 * (Y * Y * Y * 7 % 4) + 0.02 * X * Y
    if "coef" in m:
        p = sum(c * term(*nm(j), r, X, Y) for j, c in enumerate(m["coef"])) + np.where(inside, 0, 7.5)
    elif "asym" in m: p = np.round(8 * (np.sin(1.3 * X + 0.4) * np.cos(0.7 * Y) * m["asym"] + rest)) / 4
    elif "ramp" in m: p = 1.0 + 0.5 * X - 0.25 * Y
    else: p = np.full(shape, m["const"])
    t = m.get("type")
    if t == "f4": p = p.astype(np.float32)
    if t == "i8": p = np.round(p * 4).astype(np.int64)
    if t == "i4": p = np.round(p * 4).astype(np.int32)
    if t == "F": p = np.asfortranarray(p)
    if t == "strided":
        q = np.zeros((2 * shape[0], 3 * shape[1])); q[::2, ::3] = p; p = q[::2, ::3]
    before = p.copy()
    pf = p.astype(float)
    tf.config.run_functions_eagerly(True)
    try:
        env.state(case)
        big = float(np.max(np.abs(pf))) + 1e-3
        nt = {0: 6, 1: 15, 2: 10, 3: 3, 4: 0, 5: 15}[case["opts"]]
        if env.thorough and case["opts"] == 1: nt = 28
        for ext in (False, True) if case["opts"] else (False,):
            zs = [term(*nm(j), r, X, Y, ext) for j in range(nt)]
            want = [float(np.mean(pf[inside] * z[inside])) for z in zs]
            for rec in (False, True) if case["opts"] else (True,):
                kw = dict(reconstruct=rec, extrapolate=ext)
                out = io.StringIO()
                verbose = (len(want) + rec) % 2 == 1
                with contextlib.redirect_stdout(out):
                    got = pySLM2.zernike_decomposition(p, r, nt, verbose=verbose, **kw)
                env.step()
                if rec:
                    env.check(len(got) == 2, "reconstruct must return coefficients and the map")
                    got, rmap = got
                    zmax = sum(np.abs(c * z) + 0.01 * big * (1 + np.abs(z)) for c, z in zip(want, zs)) + big
                    env.close(rmap, np.zeros(shape) + sum(c * z for c, z in zip(want, zs)), "reconstruction (%s)" % kw, scale=20 * zmax)
                env.check(len(got) == nt, lambda: "%d coefficients for %d terms" % (len(got), nt))
                env.close(np.array(got, float), np.array(want, float), "coefficients (%s)" % kw, scale=20 * big)
                env.outcome_array(np.array(want))
                env.same(p, before, "map given to zernike_decomposition")
        for rd in (False, True):
            for verbose in (False, True):
                with contextlib.redirect_stdout(io.StringIO()):
                    got = pySLM2.remove_trivial_phase(p, r, remove_defocus=rd, verbose=verbose)
                env.step()
                want = pf
                for n, mm in [(0, 0), (1, -1), (1, 1)] + ([(2, 0)] if rd else []):
                    z = term(n, mm, r, X, Y)
                    want = want - np.mean(want[inside] * z[inside]) * z
                env.close(got, want, "remove_trivial_phase(remove_defocus=%s, verbose=%s)" % (rd, verbose), scale=20 * big)
                env.same(got[~inside], pf[~inside].astype(got.dtype), "pixels outside the aperture (remove_defocus=%s)" % rd)
                env.same(p, before, "map given to remove_trivial_phase")
        env.sample({"case": case, "residual": [round(c, 6) for c in want.ravel()[:3].tolist()]})
    finally:
        tf.config.run_functions_eagerly(False)
