"""P05: Zernike profiles are exactly the OSA/ANSI polynomials, with exact indexing."""
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all index pairs, options and sample points in the bounds on the real class against the polynomial definition, and of all single indices"
BOUNDS = {
    "quick": "all (n,m) with n -3..10, m -12..12 (valid and invalid) x normalize x extrapolate x 2 radii x 3 amplitudes on 57 points inside, on and outside the rim (eager; each valid (n,m) traced once per option), radii 3.3, 0.1 and 7 with one amplitude; orders 12..30 with the extreme and the smallest m; all single indices 0..100000 and the first, middle and last index of every row up to n = 40000; both precisions",
    "thorough": "n -5..14, m -16..16, all options traced, all single indices 0..2000000, rows up to n = 400000"}
RULE = "state = (indices, options, radius, amplitude) or single index; transition = one construction/evaluation compared with the definition; an outcome is a distinct sampled result"
ASSUMPTIONS = ["points within 1e-6 of the rim are compared only where radius and distance are exact"]
SHARDS = 4
FAST_TRACE = True


def cases(env):
    top, mm = (14, 16) if env.thorough else (10, 12)
    for n in range(-5 if env.thorough else -3, top + 1):
        for m in range(-mm, mm + 1):
            valid = n >= 0 and abs(m) <= n and (n - abs(m)) % 2 == 0
            for norm in (True, False):
                for ext in (True, False):
                    if not valid:
                        yield {"n": n, "m": m, "norm": norm, "ext": ext, "R": 5.0, "a": 1.0, "mode": "eager"}
                        continue
                    for R in (5.0, 2.0):
                        for a in (1.0, -0.75, 3) if n <= 6 or env.thorough else (-0.75,):
                            yield {"n": n, "m": m, "norm": norm, "ext": ext, "R": R, "a": a, "mode": "eager"}
                    for R in (3.3, 0.1, 7):                      # radii single precision cannot represent
                        yield {"n": n, "m": m, "norm": norm, "ext": ext, "R": R, "a": 1.1, "mode": "eager"}
                    if env.thorough or (norm + 2 * ext) == (n + m) % 4 or n <= 2:
                        yield {"n": n, "m": m, "norm": norm, "ext": ext, "R": 5.0, "a": 1.5, "mode": "graph"}
    for n, m in [(n, m) for n in ((12, 15, 18, 20, 21, 22, 23, 25, 30) if not env.thorough else range(11, 31)) for m in sorted({n, n - 2, -n, 2 - n, n % 2, -(n % 2), 2 - n % 2, 4 + n % 2 - 8})]:
        for norm, ext in ((True, False), (False, True)):
            for R in (5.0, 3.3):
                yield {"n": n, "m": m, "norm": norm, "ext": ext, "R": R, "a": 1.25, "mode": "eager"}
    top = 2000000 if env.thorough else 100000
    for i in range(0, top, 10000):
        yield {"ansi": [i, min(top, i + 10000)]}
    # both sides of every row boundary far beyond
    last = 400000 if env.thorough else 40000
    for n in range(400, last, 10000):
        yield {"rows": [n, min(last, n + 10000)]}


def run_case(env, case):
    import numpy as np, tensorflow as tf, pySLM2, ref
    if "ansi" in case:
        lo, hi = case["ansi"]
        n = 0
        while (n + 1) * (n + 2) // 2 <= lo:
            n += 1
        k = lo - n * (n + 1) // 2
        for j in range(lo, hi):
            env.step(); env.evaluations += 1
            got = pySLM2.ansi_j_to_n_m(j)
            if tuple(got) != (n, -n + 2 * k):
                env.check(False, "ansi_j_to_n_m(%d) = %s, expected %s" % (j, got, (n, -n + 2 * k)))
            k += 1
            if k > n:
                n, k = n + 1, 0
        env.state(("ansi", lo, hi))
        return
    if "rows" in case:
        for n in range(*case["rows"]):
            j = n * (n + 1) // 2
            for q, want in ((j, (n, -n)), (j + n, (n, n)), (j + n // 2, (n, -n + 2 * (n // 2)))):
                env.step(); env.evaluations += 1
                got = pySLM2.ansi_j_to_n_m(q)
                if tuple(got) != want:
                    env.check(False, "ansi_j_to_n_m(%d) = %s, expected %s" % (q, got, want))
        env.state(("rows", case["rows"]))
        return
    n, m, norm, ext, R, a = (case[k] for k in ("n", "m", "norm", "ext", "R", "a"))
    valid = n >= 0 and abs(m) <= n and (n - abs(m)) % 2 == 0
    tf.config.run_functions_eagerly(case["mode"] == "eager")
    try:
        env.state(sorted(case.items()))
        if not valid:
            env.step()
            env.raises(ValueError, lambda: pySLM2.Zernike(a, R, n=n, m=m, normalize=norm, extrapolate=ext), "Zernike(n=%d, m=%d)" % (n, m))
            env.raises(ValueError, lambda: pySLM2.Zernike(a, R, n, m), "Zernike(n=%d, m=%d) positional" % (n, m))
            return
        z = pySLM2.Zernike(a, R, n=n, m=m, normalize=norm, extrapolate=ext)
        N = (np.sqrt(n + 1) if m == 0 else np.sqrt(2 * n + 2))
        env.check(z.n == n and z.m == m, lambda: "indices (%r,%r) of Zernike(%d,%d)" % (z.n, z.m, n, m))
        env.check(abs(float(z.radius) - R) <= (1e-15 if env.f64 else 6e-8) * R and abs(float(z.a) - a) <= (1e-15 if env.f64 else 6e-8) * abs(a), lambda: "radius %r amplitude %r" % (z.radius, z.a))
        env.check(bool(z.is_normalized()) == norm, "is_normalized is %s for normalize=%s" % (z.is_normalized(), norm))
        env.check((z.normalization is None) if not norm else abs(float(z.normalization) - N) < 1e-5, lambda: "normalization %r" % z.normalization)
        # inside, on (3-4-5, axes) and outside the rim, axes and diagonals, centre
        p = [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (3, 4), (4, -3), (-3, 4), (-4, -3), (5, 0), (0, -5), (-5, 0), (0, 5), (5.5, 0), (0, 7), (-6, 6), (4, 4), (-4.5, 3),
             (1.5, 2), (-1.5, 2), (1.5, -2), (-1.2, -1.6), (2, 0), (0, -2), (-2, 0), (0, 2), (1.25, 0.5), (-0.5, 1.75), (0.25, -0.25), (2.5, 2.5), (-2.5, 2.5), (3.5, -3), (2.25, 3.75),
             (-3.75, -1.5), (0.125, 4.5), (4.875, 0.25), (-4.75, 0.5), (1, -4.75), (-8, 1), (2.125, 0.25), (-1, 1.75), (1.875, -0.5), (-0.75, -0.75)]
        x, y = np.array(p, float).T
        if float(np.float32(R)) != R:
            x, y = x * R / 5.0, y * R / 5.0
        x, y = x.reshape(1, -1), y.reshape(1, -1)
        e = ["Z", a, R, n, m, norm, ext]
        env.outcome_array(ref.compare_profile(env, z, e, x, y, str(e)))
        if case["mode"] == "graph":
            ref.compare_profile(env, z, e, 1.25, -0.75, "%s at one point" % e)
        env.sample({"zernike": e, "points": len(p)})
    finally:
        tf.config.run_functions_eagerly(False)
