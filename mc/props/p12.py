"""P12: the ideal DMD hologram is the Lee hologram and eta calibrates it."""
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of device, grating, beam, target, window and scale combinations on the real hologram calculation against a reference hologram, and isolation of the first order by four phase steps through the real simulation"
BOUNDS = {
    "quick": "5 device shapes x 3 periods x 4 angles x both orders x (9 beams, 4 patterns, every single spot, 4 windows, scales, in a covering set that contains every beam-target, target-window and order-angle pair); amplitude/phase gratings of 5 argument kinds; first order isolated and compared with eta/4 times the target for all beams, patterns, every spot, both orders on 4 commensurate gratings; both precisions",
    "thorough": "the full product of beams, targets, windows on 8 shapes x 5 periods x 8 angles"}
RULE = "state = (device, grating, order, beam, target, window, scales); transition = one hologram computed and compared; an outcome is a distinct hologram"
ASSUMPTIONS = ["holograms are compared within a forward error bound of the spectrum (pixels dominated by rounding of a vanishing beam are tolerated accordingly)"]
SHARDS = 4

SHAPES = [[3, 2], [4, 4], [5, 3], [6, 4], [2, 5]]
PERIODS = [3.3, 4, 6.7]
THETAS = [0.0, 0.7, -2.0, 1.5707963267948966]
BEAMS = ["one", "tilt", "neg", "dark", "lg", "tilted", "number", "weak", "wide"]
PATTERNS = ["pattern", "real", "hg", "lg"]
WINDOWS = ["none", "rect", "array", "number"]


def cases(env):
    T = env.thorough
    k = 0
    for N in SHAPES + ([[1, 4], [7, 5], [8, 8]] if T else []):
        for p in PERIODS + ([2, 12.5] if T else []):
            for t in THETAS + ([3.0, -0.7, 1, 2.3561944901923450] if T else []):
                for neg in (False, True):
                    k += 1
                    todo = []
                    spots = ["spot%d,%d" % (i, j) for i in range(N[1]) for j in range(N[0])]
                    if T:
                        todo = [[b, g, w] for b in BEAMS for g in PATTERNS for w in WINDOWS] + [[b, s, "none"] for b in BEAMS for s in spots]
                    else:
                        todo = [[b, PATTERNS[(i + k) % 4], WINDOWS[(i + k // 4) % 4]] for i, b in enumerate(BEAMS)]
                        todo += [[BEAMS[(i + k) % len(BEAMS)], s, WINDOWS[(i + k) % 4]] for i, s in enumerate(spots) if (i + k) % 3 == 0]
                        todo += [["one", g, "none"] for g in PATTERNS[k % 2::2]]
                    yield {"kind": "holo", "N": N, "p": p, "t": t, "neg": neg, "ops": [0, 1, 2, 3, 4] + todo, "u": k % 2}
    for N, kx, ky in (([8, 6], 2, 1), ([5, 4], 1, -1), ([6, 6], 0, 2), ([7, 5], -2, 1)):
        for neg in (False, True):
            for b in BEAMS:
                yield {"kind": "order", "N": N, "k": [kx, ky], "neg": neg, "beam": b, "ops": PATTERNS + (["spot%d,%d" % (i, j) for i in range(N[1]) for j in range(N[0])] if b in ("tilt", "neg") or T else [])}


def run_case(env, case):
    import numpy as np, pySLM2 as S, optics, holo
    from opticcase import UNITS
    nx, ny = case["N"]
    u = UNITS[case.get("u", 0)]
    d = optics.Dev(nx, ny, *u)
    eps = 2.0 ** -53 if env.f64 else 2.0 ** -24
    if case["kind"] == "order":
        return order(env, case, d)
    p, t, neg = case["p"], case["t"], case["neg"]
    dmd = optics.dmd(S, d, p, t, neg)
    org = dmd.first_order_origin
    env.close(np.array([float(org[0]), float(org[1])]), np.array([np.cos(t), np.sin(t)]) * d.sf / (p * d.px), "first_order_origin", scale=d.sf / (p * d.px), tol32=1e-6, tol64=1e-12)
    env.check(abs(float(dmd.theta) - t) < 1e-6, "theta")
    gerr = 4 * (1 + np.max(np.abs(holo.grating_phase(d, p, t))))
    import tensorflow as tf
    X, Y = d.fgrid()
    for op in [o for o in case["ops"] if isinstance(o, int)]:
        amp = [1, 0.5, (0.5 + 0.4 * np.cos(X / d.px)), (0.5 + 0.4 * np.cos(X / d.px)), 0.0][op]
        pin = [0, 0.3, 0.4 * X / d.px, 0.4 * X / d.px, 1.0][op]
        pout = [0, -1, 0.7 * Y / d.px - 0.2 * X / d.px, 2.5, 0][op]
        args = dict(amp=amp, phase_in=pin, phase_out=pout)
        if op == 0: args = {}
        if op == 3: args = dict(amp=tf.constant(amp, tf.float32 if not env.f64 else tf.float64), phase_in=0.4 * X / d.px, phase_out=S.ConstantProfile(2.5))
        dmd.set_dmd_grating_state(method="ideal", **args)
        env.step(); env.state((case["N"], p, t, neg, "grating", op, case["u"]))
        want = holo.ideal(d, p, t, amp * np.ones((ny, nx)), pin * np.ones((ny, nx)), pout * np.ones((ny, nx)), neg)
        env.close(dmd.dmd_state, want, "grating %d" % op, scale=gerr + 30, tol32=2 * eps, tol64=2 * eps, dtype=env.real)
        env.outcome_array(want)
    beams, targets, windows = holo.beams(d), holo.targets(d), holo.windows(d)
    for k, op in enumerate(case["ops"]):
        if isinstance(op, int):
            continue
        b, g, w = op
        env.failed_at = k
        what = "hologram of beam %s target %s window %s" % (b, g, w)
        (fe, E), (ft, T), (fw, W) = beams[b], targets[g], windows[w]
        A, pin, pout, eta, spec, err = holo.decompose(d, E, T, W)
        kw = {} if W is None else {"window": fw()}
        got = dmd.calculate_dmd_state(fe(), ft(), method="ideal", **kw)
        env.step(); env.state((case["N"], p, t, neg, b, g, w, case["u"]))
        env.check(abs(float(got) - eta) <= 200 * eps * abs(eta) * float(np.max(err[A > 0.5] if np.any(A > 0.5) else 1)), lambda: "%s: eta %r, expected %r" % (what, got, eta))
        want = holo.ideal(d, p, t, A, pin, pout, neg)
        state = dmd.dmd_state
        env.close(state, want, what, scale=err * 8 + gerr + 30, tol32=2 * eps, tol64=2 * eps, dtype=env.real)
        env.outcome_array(np.round(want, 3))
        if k % 3 == 0:                     # the state does not depend on either scale, eta does
            state = state.copy()
            for fe2, ft2, f in ((3.0, 1.0, 3.0), (1.0, 0.125, 8.0)):
                other = dmd.calculate_dmd_state(E * fe2, np.asarray(T) * ft2, method="ideal", **kw)
                env.step()
                env.close(dmd.dmd_state, state, what + " with scaled beam/target", scale=err * 8 + gerr + 30, tol32=4 * eps, tol64=4 * eps)
                env.check(abs(other / got - f) < (1e-3 if not env.f64 else 1e-9) * f, lambda: "%s: eta changes by %r for scales %s, %s" % (what, other / got, fe2, ft2))
    env.sample({"case": dict(case, ops=case["ops"][:2]), "eta": float(eta) if k > 4 else None})


def order(env, case, d):
    """The first diffraction order is eta/4 times the target, at the reported origin."""
    import numpy as np, pySLM2 as S, optics, holo
    nx, ny = case["N"]
    kx, ky = case["k"]
    fx, fy = kx / nx, ky / ny                                  # grating frequency in cycles per pixel
    period, theta = 1 / np.hypot(fx, fy), np.arctan2(fy, fx)
    dmd = optics.dmd(S, d, period, theta, case["neg"])
    sim = S.DMDSimulation(dmd)
    ox, oy = sim.first_order_origin
    sgn = -1 if case["neg"] else 1
    sj, si = int(round(sgn * float(ox) * nx * d.px / d.sf)), -int(round(sgn * float(oy) * ny * d.px / d.sf))
    env.check((sj, si) == (sgn * kx, -sgn * ky), lambda: "first order %s, expected %s samples from the centre" % ((sj, si), (sgn * kx, -sgn * ky)))
    fe, E = holo.beams(d)[case["beam"]]
    beam, targets = fe(), holo.targets(d)
    for k, g in enumerate(case["ops"]):
        env.failed_at = k
        T = np.asarray(targets[g][1], complex)
        parts, etas = [], []
        for a in range(4):
            etas.append(float(dmd.calculate_dmd_state(beam, T * 1j ** a, method="ideal")))
            sim.propagate_to_image(beam)
            parts.append(sim.image_plane_field * (-1j) ** a / 4)
            env.step(2)
        first = sum(parts)
        lit = d.spectrum(T) * (np.abs(E) > 0)                 # a dark pixel cannot diffract
        Te = d.to_image(lit) * d.sf / d.px ** 2 / (nx * ny)
        want = np.roll(np.roll(Te, si, 0), sj, 1) * etas[0] / 4
        env.state((case["N"], case["k"], case["neg"], case["beam"], g))
        bound = d.px ** 2 / d.sf * np.sum(np.abs(E))
        env.close(first, want, "first order of target %s with beam %s" % (g, case["beam"]), scale=bound, tol32=1e-5)
        env.outcome_array(np.round(want / bound, 4))
    env.sample({"case": dict(case, ops=case["ops"][:2])})
