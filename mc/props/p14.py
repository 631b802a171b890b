"""P14: IFTA is adaptive binarization with the signal window enforced."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of iteration counts, scales, signal windows, beams, targets and orders on the real method against a double-precision reference of the iteration, tracking which decisions are numerically certain; plus metamorphic executions"
BOUNDS = {
    "quick": "4 device shapes x both orders x 8 beams x 5 targets x (N 1,2,3,5,20 and default 200; s 1,0.5,1.5 and default; windows none, all, 2 rectangles, asymmetric weights, complex weights; every pair of these), every 0/1 signal window of a 3x2 image for N=1,2,3; argument independence over call histories; both precisions",
    "thorough": "8 shapes, the full product of N, s and windows, every 0/1 window of 3x3 for N=1..5"}
RULE = "state = (device, order, beam, target, window, N, s); transition = one call compared on every pixel whose decisions are certain; an outcome is a distinct frame"
ASSUMPTIONS = ["pixels whose value comes within rounding reach of a threshold in some iteration (and calls in which that happens before the last iteration) are not compared; the evidence counts compared and skipped calls"]
SHARDS = 4

SHAPES = [[4, 3], [5, 4], [3, 5], [6, 6]]
BEAMS = ["one", "tilt", "neg", "dark", "lg", "tilted", "weak", "wide"]
TARGETS = ["pattern", "real", "hg", "lg", "spot1,0"]
NS = [1, 2, 3, 5, 20, None]
SC = [None, 0.5, 1.5, 1.0]
WINS = ["zero", "all", "rect", "corner", "weights", "complex", "profile"]


def cases(env):
    T = env.thorough
    k = 0
    for N in SHAPES + ([[7, 4], [8, 8], [2, 6], [5, 5]] if T else []):
        for neg in (False, True):
            for b in BEAMS:
                ops = []
                for t in TARGETS:
                    for i, n in enumerate(NS):
                        for w in WINS:
                            for s in SC:
                                k += 1
                                if T or (n is not None and k % 11 == i) or (n is None and k % 40 == 0):
                                    ops.append([t, n, s, w])
                yield {"N": N, "neg": neg, "beam": b, "ops": ops, "kind": "ref"}
    for N, ns in (([3, 2], [1, 2, 3]),) + ((([3, 3], [1, 2, 3, 4, 5]),) if T else ()):
        for neg in (False, True):
            for b in ("tilt", "dark", "one"):
                for n in ns:
                    yield {"N": N, "neg": neg, "beam": b, "kind": "ref", "ops": [["pattern", n, None, "code%d" % c] for c in range(2 ** (N[0] * N[1]))]}
    for neg in (False, True):
        for b in BEAMS:
            yield {"N": [6, 5], "neg": neg, "beam": b, "kind": "meta", "ops": TARGETS}


def window(name, d):
    """(what is passed, values on the image-plane grid)"""
    import numpy as np, optics, ref
    X, Y = d.igrid()
    dx, dy = d.sf / (d.Nx * d.px), d.sf / (d.Ny * d.px)
    u, v = X / dx, Y / dy
    if name.startswith("code"):
        w = optics.bits(int(name[4:]), (d.Ny, d.Nx)).astype(float)
        return w, w
    if name == "zero": return 0.0, np.zeros_like(X)
    if name == "all": return 1, np.ones_like(X)
    if name == "rect": w = ((u >= 0) & (v <= 0)).astype(float); return w, w
    if name == "corner": w = ((u > 0.5) | (v > 0.5)).astype(np.float32); return w, w.astype(float)
    if name == "weights": w = 0.5 + 0.1 * u - 0.07 * v; return w, w
    if name == "complex": w = 0.6 * np.exp(0.3j * u); return w, w
    e = ["WR", 0.6 * dx, -0.6 * dy, 2.1 * dx, 2.1 * dy]
    import pySLM2
    return ref.build(pySLM2, e), ref.ev(e, X, Y)[0]


def reference(d, p, t, neg, E, T, W, N, s, eps):
    """(frame, certain pixels) or None if a decision before the end is uncertain."""
    import numpy as np, holo
    A, pin, pout, _, _, err = holo.decompose(d, E, T)
    g = s * holo.ideal(d, p, t, A, pin, pout, neg)
    dark = np.abs(E) == 0
    cond = float(np.max(np.abs(E)) / np.min(np.abs(E)[~dark]))
    slack = eps * 60 * cond * (float(np.max(err[~dark])) + 10)
    E = np.asarray(E, complex)
    scale = d.px ** 2 / d.sf
    img0 = d.to_image(E * g) / scale
    kx, ky = d.kernels()
    u = g.copy()
    for k in range(1, N + 1):
        hi, lo = 1 - k / (2.0 * N), k / (2.0 * N)
        near = (np.abs(u - hi) < slack) | (np.abs(u - lo) < slack)
        # values at 0 or 1 exactly (fixed points) are clear of both thresholds unless the threshold is there
        if np.any(near & ~dark):
            if abs(hi - lo) > 1e-12 or k < N:
                # a clear pixel near the threshold keeps nearly its value only if the threshold is at that value's side
                return None
            return None
        b = np.where(u > hi, 1.0, u)
        b = np.where(u < lo, 0.0, b)
        f = d.to_image(E * b) / scale
        f = (img0 - f) * W + f
        back = ky.conj() @ f @ kx.conj().T / (d.Nx * d.Ny)
        with np.errstate(all="ignore"):
            u = np.where(dark, 0.0, np.real(back / E))
        slack *= 1.5 if k < 30 else 1.02
    return u > 0.5, (np.abs(u - 0.5) > slack) | dark, u


def run_case(env, case):
    import numpy as np, pySLM2 as S, optics, holo
    nx, ny = case["N"]
    d = optics.Dev(nx, ny)
    eps = 2.0 ** -53 if env.f64 else 2.0 ** -24
    p, t = 3.7, 0.45
    dmd = optics.dmd(S, d, p, t, case["neg"])
    fe, E = holo.beams(d)[case["beam"]]
    beam, targets = fe(), holo.targets(d)

    def call(tg, n, s, w, what):
        kw = {}
        if n is not None: kw["N"] = n
        if s is not None: kw["s"] = s
        eta = dmd.calculate_dmd_state(beam, targets[tg][0](), method="ifta", signal_window=w, **kw)
        env.step()
        f = dmd.dmd_state
        env.check(isinstance(f, np.ndarray) and f.dtype == bool and f.shape == (ny, nx), lambda: "%s: state is %s %s" % (what, getattr(f, "dtype", type(f)), getattr(f, "shape", None)))
        env.check(not np.any(f[np.abs(E) == 0]), what + ": a pixel without input light is on")
        return f, float(eta)

    if case["kind"] == "meta":
        return meta(env, case, d, dmd, call, E, p, t, targets, window, eps)
    for k, (tg, n, s, wn) in enumerate(case["ops"]):
        env.failed_at = k
        what = "ifta target %s N=%s s=%s window %s" % (tg, n, s, wn)
        wobj, W = window(wn, d)
        got, eta = call(tg, n, s, wobj, what)
        env.state((case["N"], case["neg"], case["beam"], tg, n, s, wn))
        env.outcome_array(got)
        want_eta = holo.decompose(d, E, targets[tg][1])[3]
        env.check(abs(eta - want_eta) < 1e-3 * abs(want_eta), lambda: "%s: eta %r, expected %r" % (what, eta, want_eta))
        r = reference(d, p, t, case["neg"], E, targets[tg][1], W, 200 if n is None else n, 1.0 if s is None else s, eps)
        if r is None:
            env.count("calls_skipped")
            continue
        env.count("calls_compared")
        want, sure, u = r
        env.count("pixels_compared", int(sure.sum()))
        bad = sure & (got != want)
        env.check(not np.any(bad), lambda: "%s: pixel %s is %s, final value %.6f" % (what, tuple(np.argwhere(bad)[0].tolist()), bool(got[bad][0]), u[bad][0]))
    env.sample({"case": dict(case, ops=case["ops"][:2])})


def meta(env, case, d, dmd, call, E, p, t, targets, window, eps):
    import numpy as np, holo
    for tg in case["ops"]:
        A, pin, pout, _, _, err = holo.decompose(d, E, targets[tg][1])
        ideal = holo.ideal(d, p, t, A, pin, pout, case["neg"])
        dark = np.abs(E) == 0
        slack = eps * 400 * np.where(dark, 1, err * float(np.max(np.abs(E)))/np.where(dark, 1, np.abs(E)) + 10)
        # a window of ones restores the initial image in every iteration: N is irrelevant, the result is s*ideal > 1/2
        for n in (1, 2, 7, None):
            for s in (None, 1.4, 0.8):
                f, _ = call(tg, n, s, 1.0, "ifta with a full window")
                v = (1.0 if s is None else s) * ideal
                sure = (np.abs(v - 0.5) > slack * 4) & ~dark
                env.state((case["neg"], case["beam"], tg, n, s, "full"))
                env.check(bool(np.all(f[sure] == (v > 0.5)[sure])), lambda: "full window, target %s, N=%s, s=%s: not the thresholded hologram" % (tg, n, s))
        # a window of zeros corrects nothing: each value only moves away from 1/2, so that the result is again s*ideal > 1/2
        for n in (1, 2, 7, None):
            f, _ = call(tg, n, None, 0.0, "ifta with an empty window")
            sure = (np.abs(ideal - 0.5) > slack * 4) & ~dark
            env.state((case["neg"], case["beam"], tg, n, "empty"))
            env.check(bool(np.all(f[sure] == (ideal > 0.5)[sure])), lambda: "empty window, target %s, N=%s: not the thresholded hologram" % (tg, n))
        # defaults are 200 iterations and s = 1; options act on one call only
        w = window("rect", d)[1]
        base, _ = call(tg, None, None, w, "defaults")
        for n, s in ((200, None), (None, 1.0), (200, 1), (3, 1.4), (200, 1.0)):
            f, _ = call(tg, n, s, w, "N=%s s=%s" % (n, s))
            env.outcome_array(f)
            if (n, s) != (3, 1.4):
                env.same(f, base, "frame with N=%s, s=%s against the defaults, target %s" % (n, s, tg))
        again, _ = call(tg, None, None, w, "defaults again")
        env.same(again, base, "frame with defaults after calls with other options, target %s" % tg)
