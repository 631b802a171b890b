"""P13: binary holograms threshold the right grating for every random draw."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of environment answers: the random generator is replaced by the explorer, which supplies every assignment of draws to the pixels of small devices, on the real methods against the threshold rule"
BOUNDS = {
    "quick": "2x2, 3x2, 2x3, 4x1 and 1x4 devices: for 28 gratings (amplitudes incl. 0 and 1, phases, 2 periods, 2 angles, both orders, steepness 0, 1/4, 1, 10 default, 40, 400) and 6 holograms every assignment of {just below, just above} its own on-probability to the pixels (2^4, 2^6); every assignment of {0, 1/4, 1/2, 3/4, 0.999} to 2x2 for 4 gratings; freshness over repeated calls; simple method for all gratings of P12's alphabet; both precisions",
    "thorough": "also 3x3 and 4x2 devices (2^9, 2^8 assignments), all 5-level assignments for 12 gratings"}
RULE = "state = (grating parameters, draw assignment); transition = one call of a method under one assignment of draws; an outcome is a distinct frame"
ASSUMPTIONS = ["uniform draws are requested from tf.random.uniform, one per pixel in row-major order; if the code draws elsewhere, only the draw-independent part of the statement (never on / always on pixels, fresh draws) is decided, and the evidence says so (seam_calls = 0)"]
SHARDS = 4
SEAM = True
LEVELS = [0.0, 0.25, 0.5, 0.75, 0.999]


def gratings(env, n):
    k = 0
    for p in (3.3, 5.1):
        for t in (0.4, -1.9):
            for neg in (False, True):
                for amp in ("one", "mixed", "small"):
                    k += 1
                    yield {"p": p, "t": t, "neg": neg, "amp": amp, "r": [None, 10, 1.0, 40.0][k % 4]}
    for k, r in enumerate((0, 0.0, 0.25, 400)):
        yield {"p": 3.3, "t": 0.4, "neg": k % 2 == 1, "amp": ("one", "mixed", "small", "mixed")[k], "r": r}


def cases(env):
    shapes = [[2, 2], [3, 2], [2, 3], [4, 1], [1, 4]] + ([[3, 3], [4, 2]] if env.thorough else [])
    for N in shapes:
        gs = list(gratings(env, N))
        for i, g in enumerate(gs):
            if N == [2, 2] or env.thorough or i % 2 == (N[0] % 2):
                yield dict(g, N=N, kind="two", ops=list(range(2 ** (N[0] * N[1]))))
        for b, tg in (("tilt", "pattern"), ("neg", "real"), ("dark", "pattern"), ("lg", "spot%d,0" % (N[1] > 1))):
            for neg in (False, True):
                yield {"N": N, "kind": "two", "holo": [b, tg], "p": 3.3, "t": 0.4, "neg": neg, "r": None, "ops": list(range(2 ** (N[0] * N[1])))}
    for i, g in enumerate(gratings(env, [2, 2])):
        if i % 6 == 1 or (env.thorough and i % 2 == 0):
            for b in range(0, 625, 125):
                yield dict(g, N=[2, 2], kind="five", ops=list(range(b, b + 125)))
    for N in ([3, 2], [4, 4], [5, 3], [8, 6], [7, 1], [1, 6]):
        for i, g in enumerate(gratings(env, N)):
            yield dict(g, N=N, kind="simple", ops=["grating"] + [[b, t] for b in ("one", "tilt", "neg", "dark", "lg", "weak", "wide") for t in ("pattern", "real", "hg", "spot%d,0" % (N[1] > 1))][i % 4::4])
    for neg in (False, True):
        yield {"kind": "fresh", "N": [12, 10], "p": 4.2, "t": 0.4, "neg": neg}


def arrays(case):
    import numpy as np
    nx, ny = case["N"]
    jj, ii = np.meshgrid(np.arange(nx), np.arange(ny))
    amp = {"one": np.ones((ny, nx)), "mixed": ((ii * 2 + jj * 3) % 5) / 4.0, "small": 0.2 + 0.1 * ((ii + jj) % 3)}[case["amp"]]
    return amp, 0.9 * ii - 0.4 * jj, 1.7 * jj + 0.3 * ii - 0.5


def run_case(env, case):
    import numpy as np, pySLM2 as S, optics, holo, boot
    nx, ny = case["N"]
    d = optics.Dev(nx, ny)
    seam = boot.SEAM
    dmd = optics.dmd(S, d, case["p"], case["t"], case["neg"])
    slack = 1e-9 if env.f64 else 3e-5
    if case["kind"] == "fresh":
        return fresh(env, case, d, dmd)

    def call(method, extra, what):
        if "holo" in extra:
            b, t = extra["holo"]
            dmd.calculate_dmd_state(holo.beams(d)[b][0](), holo.targets(d)[t][0](), method=method, **kw)
        else:
            amp, pin, pout = arrays(case)
            dmd.set_dmd_grating_state(amp=amp, phase_in=pin, phase_out=pout, method=method, **kw)
        env.step()
        s = dmd.dmd_state
        env.check(isinstance(s, np.ndarray) and s.dtype == bool and s.shape == (ny, nx), lambda: "%s: state is %s %s" % (what, getattr(s, "dtype", type(s)), getattr(s, "shape", None)))
        env.outcome_array(s)
        return s

    kw = {}
    if case["kind"] == "simple":
        for amp, on in ((0.5, False), (1.0, True), (0.0, False)):        # at the grating origin the hologram is amp: exactly 1/2 is not above 1/2
            dmd.set_dmd_grating_state(amp=amp, method="simple")
            env.step()
            c = tuple(int(q) for q in np.argwhere((d.fgrid()[0] == 0) & (d.fgrid()[1] == 0))[0])
            env.check(bool(dmd.dmd_state[c]) == on, lambda: "simple grating of amplitude %s: the pixel at the origin is %s" % (amp, dmd.dmd_state[c]))
        for k, op in enumerate(case["ops"]):
            env.failed_at = k
            if op == "grating":
                want = holo.ideal(d, case["p"], case["t"], *arrays(case), case["neg"])
                err = 1.0
                s = call("simple", {}, "simple grating")
            else:
                E, T = holo.beams(d)[op[0]][1], holo.targets(d)[op[1]][1]
                A, pin, pout, _, _, err = holo.decompose(d, E, T)
                want = holo.ideal(d, case["p"], case["t"], A, pin, pout, case["neg"])
                s = call("simple", {"holo": op}, "simple hologram %s" % op)
            sure = np.abs(want - 0.5) > slack * np.maximum(err, 1.0)
            env.state((case["N"], case["p"], case["t"], case["neg"], case["amp"], "simple", op))
            env.count("simple_pixels", int(sure.sum()))
            env.check(bool(np.all(s[sure] == (want > 0.5)[sure])), lambda: "simple method, %s: on where the ideal hologram is %s" % (op, want[sure & (s != (want > 0.5))][:3]))
        return
    if case["r"] is not None:
        kw["r"] = case["r"]
    r = 10.0 if case["r"] is None else float(case["r"])
    if "holo" in case:
        E, T = holo.beams(d)[case["holo"][0]][1], holo.targets(d)[case["holo"][1]][1]
        A, pin, pout, _, _, err = holo.decompose(d, E, T)
    else:
        A, pin, pout = arrays(case)
        err = 1.0
    prob = holo.random_probability(d, case["p"], case["t"], A, pin, pout, case["neg"], r)
    # arcsin is steep near 1: the tolerance of the on-probability
    tol = slack * 10 * np.maximum(err, 1.0) + (2e-2 if not env.f64 else 2e-6) * (A > 0.9999)
    n = nx * ny
    for k, code in enumerate(case["ops"]):
        env.failed_at = k
        if case["kind"] == "two":
            up = optics.bits(code, (ny, nx))
            delta = np.maximum(2 * tol, 1e-3 if not env.f64 else 1e-6)
            draws = np.clip(np.where(up, prob - delta, prob + delta), 0.0, 1 - 2.0 ** -20)
        else:
            draws = np.array([LEVELS[i] for i in optics.digits(code, 5, n)]).reshape(ny, nx)
        want = draws < prob
        sure = np.abs(draws - prob) > tol
        sure |= (A == 0)
        want = np.where(A == 0, False, want)
        before = seam.calls
        seam.script = lambda shape: draws.reshape(shape) if int(np.prod(shape)) == n else np.resize(draws, shape)
        try:
            s = call("random", case if "holo" in case else {}, "random method")
        finally:
            seam.script = None
        env.state((case["N"], case["p"], case["t"], case["neg"], case.get("amp"), case.get("holo"), case["r"], code, case["kind"]))
        env.count("seam_calls", seam.calls - before)
        if seam.calls == before:                     # the code draws elsewhere: only what no draw can change
            env.check(seam.total == 0, "random method: no fresh draw in this call, although earlier calls drew")
            never, always = (A == 0), prob > 1 - 1e-12
            env.check(not np.any(s[never]) and bool(np.all(s[always])), "random method: pixels that no draw can change")
            continue
        env.count("pixels_decided", int(sure.sum()))
        bad = sure & (s != want)
        env.check(not np.any(bad), lambda: "random method (r=%s): pixel %s with on-probability %.6f and draw %.6f is %s" % (
            r, tuple(np.argwhere(bad)[0].tolist()), prob[bad][0], draws[bad][0], bool(s[bad][0])))
    env.sample({"case": dict(case, ops=case["ops"][:2]), "probability": np.round(prob, 4).tolist()})


def fresh(env, case, d, dmd):
    """Without a script: repeated calls use new draws, different pixels different ones, and duty follows arcsin."""
    import numpy as np
    frames = []
    for k in range(4):
        dmd.set_dmd_grating_state(amp=0.5, method="random", r=1.0)
        env.step()
        frames.append(dmd.dmd_state)
        env.outcome_array(frames[-1])
    env.state(("fresh", case["neg"]))
    for i in range(4):
        for j in range(i):
            env.check(not np.array_equal(frames[i], frames[j]), "two calls of the random method used the same draws for all 120 pixels")
    rows = frames[0]
    env.check(len({r.tobytes() for r in rows}) > 1 and len({c.tobytes() for c in rows.T}) > 1, "all rows or all columns of a random frame are equal")
