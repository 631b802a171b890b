"""P04: beam and window profiles equal their closed forms."""
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all modes, parameter combinations and sample points in the bounds on the real profile classes against closed forms in double precision"
BOUNDS = {
    "quick": "Hermite n,m 0..6, Laguerre l -4..4, p 0..4, eleven higher Hermite pairs up to (0,24) and ten higher Laguerre pairs up to l=20, p=16, super-Gaussian powers 0.5..10, each with 3 centres, 2 amplitudes, 2 widths and length scales 1 and 1e-6 (eager; one combination per mode traced), 63 points incl. centre, axes, far field; rectangular and circular windows with all combinations of 3 centres and 4 sizes on a grid that contains the exact boundary, constants; both precisions",
    "thorough": "n,m 0..12, l -8..8, p 0..8, also scale 1e-3, all combinations also traced for n,m,|l|,p <= 3"}
RULE = "state = (class, parameters); transition = one evaluation compared with the closed form within a forward error bound; an outcome is a distinct sampled result"
ASSUMPTIONS = ["points within rounding of a window edge are compared only where coordinates and edge are exactly representable"]
SHARDS = 4
FAST_TRACE = True


def params(env):
    scales = [1.0, 1e-6] + ([1e-3] if env.thorough else [])
    for s in scales:
        for c in ((0.0, 0.0), (0.5 * s, -0.25 * s), (-3.0 * s, 8.0 * s)):
            for a in (1.0, -2.5):
                for w in (1.0 * s, 2.5 * s):
                    yield s, c, a, w


def leaves(env):
    big = env.thorough
    N = 12 if big else 6
    for n in range(N + 1):
        for m in range(N + 1):
            for i, (s, c, a, w) in enumerate(params(env)):
                if n + m <= 4 or (i + n + 3 * m) % (1 if big else 4) == 0:
                    yield s, ["HG", c[0], c[1], a, w, n, m]
    for l in range(-8 if big else -4, 9 if big else 5):
        for p in range(9 if big else 5):
            for i, (s, c, a, w) in enumerate(params(env)):
                if abs(l) + p <= 3 or (i + l + 3 * p) % (1 if big else 4) == 0:
                    yield s, ["LG", c[0], c[1], a, w, l, p]
    for k, (n, m) in enumerate(((9, 0), (0, 11), (13, 1), (2, 14), (15, 0), (0, 16), (18, 3), (5, 19), (22, 0), (0, 24), (20, 20))):
        for i, (s, c, a, w) in enumerate(params(env)):
            if big or (i + k) % 4 == 0:
                yield s, ["HG", c[0], c[1], a, w, n, m]
    for k, (l, p) in enumerate(((7, 0), (-9, 1), (12, 0), (-12, 2), (0, 7), (1, 10), (-2, 13), (3, 16), (20, 0), (10, 10))):
        for i, (s, c, a, w) in enumerate(params(env)):
            if big or (i + k) % 4 == 0:
                yield s, ["LG", c[0], c[1], a, w, l, p]
    for p in (0.5, 1.0, 1, 1.5, 2, 2.5, 3, 4, 10, 20.0):
        for s, c, a, w in params(env):
            yield s, ["SG", c[0], c[1], a, w, p]
    for s in (1.0, 2.0 ** -20):
        for c in ((0.0, 0.0), (0.5 * s, -0.25 * s), (-1.0 * s, 2.0 * s)):
            for wx in (0.0, 0.5 * s, 2.0 * s, 5.0 * s):
                for wy in (0.0, 1.0 * s, 3.0 * s, 8.0 * s):
                    yield s, ["WR", c[0], c[1], wx, wy]
            for r in (0.0, 0.25 * s, 1.25 * s, 2.5 * s, 5.0 * s):
                yield s, ["WC", c[0], c[1], r]
    for v in (["i", 0], ["i", 3], ["f", -1.25], ["f", 0.1], ["c", 1.0, -2.0], ["c", 0.0, 0.0], ["nf", 0.3], ["nc", 0.5, 0.1]):
        yield 1.0, ["K", v]


def cases(env):
    seen = set()
    for s, l in leaves(env):
        mode = tuple(l[:1] + l[5:])
        if mode not in seen or (env.thorough and l[0] in ("HG", "LG") and max(map(abs, l[5:])) <= 3):
            seen.add(mode)
            yield {"mode": "graph", "e": l, "s": s}
        yield {"mode": "eager", "e": l, "s": s}


def run_case(env, case):
    import numpy as np, tensorflow as tf, pySLM2, ref
    e, s = case["e"], case["s"]
    u = np.array([-4.0, -2.0, -1.0, -0.5, -0.25, 0.0, 0.25, 0.75, 1.5, 2.5]) * s
    v = np.array([-3.0, -1.25, -0.5, 0.0, 0.25, 1.0, 2.0]) * s
    x0, y0 = (e[1], e[2]) if e[0] != "K" else (0.0, 0.0)
    X, Y = np.meshgrid(u, v)
    if e[0] not in ("WR", "WC"):
        X, Y = X + x0, Y + y0                      # includes the centre and both axes through it
    else:
        xe = np.array([x0 - e[3] / 2, x0, x0 + e[3] / 2, x0 + e[3] / 4]) if e[0] == "WR" else np.array([x0 - e[3], x0, x0 + e[3], x0 + 0.6 * 0])
        X, Y = np.meshgrid(np.concatenate([u, xe, x0 + np.array([-.75, .75, 1., 1.5, 3., -4.]) * s]),
                           np.concatenate([v, [y0 - e[4 if e[0] == "WR" else 3] / (2 if e[0] == "WR" else 1), y0, y0 + e[4 if e[0] == "WR" else 3] / (2 if e[0] == "WR" else 1)],
                                           y0 + np.array([1., -1., 2., 4., -3.]) * s]))
    X, Y = X.astype(env.real).astype(float), Y.astype(env.real).astype(float)      # points representable in the precision under test
    tf.config.run_functions_eagerly(case["mode"] == "eager")
    try:
        prof = ref.build(pySLM2, e)
        env.state((case["mode"], e))
        env.outcome_array(ref.compare_profile(env, prof, e, X, Y, "%s (%s)" % (e, case["mode"])))
        if case["mode"] == "graph":
            ref.compare_profile(env, prof, e, X[1, 2], Y[1, 2], "%s at one point" % e)
        env.sample({"profile": e, "points": int(X.size)})
    finally:
        tf.config.run_functions_eagerly(False)
