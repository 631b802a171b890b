"""P26: a computed hologram puts the light where it was asked to."""
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of target spot positions x beams x algorithms x orders x paddings, executed as one long history per device on the real hologram and simulation code, with the brightest point of the simulated image compared with the requested position"
BOUNDS = {
    "quick": "DMD: every spot position of 4 device shapes (up to 8x7) x 2 gratings (on-grid and off-grid first order) x both orders x 7 beams (flat, tilted, curved, sign-changing, Gaussian, complex number, partly dark) x (ideal; simple on a covering half and random on a covering quarter for the beams of uniform magnitude) x paddings (none, twice, three times the device) as a covering set; zeroth-order blocking for flat beams; LCOS: every spot x the same beams x gs N = 1, 2, 5 and mraf with every square window around the spot x 4 mixing factors; both precisions",
    "thorough": "8 shapes up to 12x11, 4 gratings, all paddings for every combination"}
RULE = "state = (device, grating, order, beam, method, spot, padding); transition = one hologram or one simulation; an outcome is a distinct (device, method, brightest sample)"
ASSUMPTIONS = ["points that undiffracted or conjugate light reaches (computed from the beam alone) or that lie on the main lobe of the spot are not required to be darker than the spot; the evidence counts the points compared",
               "binarization noise can outshine the spot on small frames: for the methods simple and random the light at the requested position is bounded from below instead, for beams of uniform magnitude; ifta is decided by P14",
               "the mraf target is bright enough to dominate the light outside the signal window"]
SHARDS = 4
SEAM = True
SHAPES = [[8, 6], [6, 7], [5, 8], [8, 7]]
MORE = [[12, 11], [9, 5], [4, 10], [7, 7]]
BEAMS = ["one", "tilt", "curved", "sign", "gauss", "number", "dark"]
UNIFORM = BEAMS[:4] + ["number"]
# grating as cycles over the frame: on-grid pairs are integers
GRATINGS = [[2, 1], [1.6, -1.3], [-1, 3], [2.5, 0.0]]
METHODS = ["ideal", "simple", "random"]


def cases(env):
    T = env.thorough
    k = 0
    for N in SHAPES + (MORE if T else []):
        spots = [[i, j] for i in range(N[1]) for j in range(N[0])]
        for gi, g in enumerate(GRATINGS[:4 if T else 2]):
            for neg in (False, True):
                for b in BEAMS:
                    ops = []
                    for m in METHODS:
                        for q, s in enumerate(spots):
                            k += 1
                            if m == "ideal" or (b in UNIFORM and (T or k % 2 == 0) and (T or m != "random" or k % 4 == 0)):
                                ops.append([m, s, [0, 1, 2] if T else [q % 3]])
                    for c in range(0, len(ops), 128):
                        yield {"dev": "dmd", "N": N, "grating": g, "neg": neg, "beam": b, "ops": ops[c:c + 128]}
        for b in BEAMS:
            ops = []
            for q, s in enumerate(spots):
                for m in ("gs", "mraf"):
                    for n in (1, 2, 5):
                        for r in ((0, 1, 2, 99) if m == "mraf" else (0,)):
                            k += 1
                            if T or m == "gs" or k % 3 == 0:
                                ops.append([m, s, [k % 3], n, r, [0.4, 0.5, 0.8, 1.0][k % 4]])
            for c in range(0, len(ops), 128):
                yield {"dev": "lcos", "N": N, "beam": b, "ops": ops[c:c + 128]}


def beam(name, d):
    import numpy as np
    X, Y = d.fgrid()
    u, v = X / d.px, Y / d.px
    one = np.ones((d.Ny, d.Nx))
    return {"one": one, "tilt": np.exp(2j * np.pi * (u / d.Nx - 2 * v / d.Ny)), "curved": np.exp(1j * (0.37 * u * u - 0.29 * v * v + 0.1 * u * v)),
            "sign": np.where((np.abs(u) * 3 + v * v) % 3 > 1, -1.0, 1.0), "gauss": np.exp(-((u - 0.5) / d.Nx) ** 2 - (v / d.Ny) ** 2) * np.exp(0.6j * u * v),
            "number": (0.5 - 2j) * one, "dark": np.where((u + 2 * v) % 5 == 0, 0, 1 + 0.1 * u) * np.exp(1.1j * v * v)}[name]


def run_case(env, case):
    import numpy as np, pySLM2 as S, optics, boot
    nx, ny = case["N"]
    d = optics.Dev(nx, ny)
    E = beam(case["beam"], d)
    passed = {"one": 1.0, "number": 0.5 - 2j}.get(case["beam"], E)
    lc = case["dev"] == "lcos"
    if lc:
        slm, org, s = optics.lcos(S, d), (0.0, 0.0), 0
    else:
        cx, cy = case["grating"]
        fx, fy = cx / nx, cy / ny
        slm = optics.dmd(S, d, 1 / np.hypot(fx, fy), np.arctan2(fy, fx), case["neg"])
        s = -1 if case["neg"] else 1
        org = slm.first_order_origin
        env.close(np.array(org, float), np.array([fx, fy]) * d.sf / d.px, "first_order_origin")
    pads = [(0, 0), (nx // 2 if nx % 2 == 0 else nx, ny), (nx, ny // 2 if ny % 2 == 0 else ny)]
    sims = [(S.SLMSimulation if lc or k == 2 else S.DMDSimulation)(slm, padding_x=a, padding_y=b) for k, (a, b) in enumerate(pads)]
    X, Y = d.igrid()
    fX, fY = d.fgrid()
    u = ((np.arange(nx * ny) * 29 % 41 + 1) / 42.0).reshape(ny, nx)       # 1/42 to 41/42
    mag = np.abs(E)
    lit = np.where(mag > 0, 1.0, 0.0)
    maps = {}
    for k, op in enumerate(case["ops"]):
        env.failed_at = k
        m, (i, j), which = op[:3]
        T = np.zeros((ny, nx)); T[i, j] = 200.0 if m == "mraf" else 2.5 if k % 2 else 0.3
        boot.SEAM.script = lambda shape: u if int(np.prod(shape)) == u.size else np.resize(u, shape)
        before = boot.SEAM.calls
        x, y = X[i, j] + s * org[0], Y[i, j] + s * org[1]
        try:
            if lc:
                kw = {}
                if m == "mraf":
                    kw = {"mixing_factor": op[5], "signal_window": (np.maximum(abs(np.arange(ny)[:, None] - i), abs(np.arange(nx)[None] - j)) <= op[4]).astype(float)}
                slm.calculate_hologram(passed, T, method=m, N=op[3], **kw)
            else:
                slm.calculate_dmd_state(passed, T, method=m)
        finally:
            boot.SEAM.script = None
        env.step()
        for pi in which:
            sim = sims[pi]
            a, b = pads[pi]
            sim.propagate_to_image(passed)
            env.step()
            I = np.sqrt(sim.image_plane_intensity.astype(float))
            env.state((case["dev"], case["N"], case.get("grating"), case.get("neg"), case["beam"], op[0], op[1], pi) + tuple(op[3:]))
            if pi not in maps:
                PX, PY = d.igrid(a, b)
                Z = np.abs(d.to_image(d.embed(E, a, b), a, b))
                maps[pi] = PX, PY, Z
            PX, PY, Z = maps[pi]
            flat = mag if lc else lit * first_amp(E)
            # what the requested order alone, the undiffracted light and the conjugate order look like: for a single spot
            # the hologram makes the order |E|*amplitude*exp(-2 pi i (x x0 + y y0)/(lambda f)), with |E|*amplitude constant
            phi = -2 * np.pi * (fX * x + fY * y) / d.sf
            F = np.abs(d.to_image(d.embed(flat * np.exp(1j * phi), a, b), a, b))
            if lc:
                Zn = C = np.zeros_like(F)
                c1 = 1.0
            else:
                c1 = 0.25
                Zn = np.abs(d.to_image(d.embed(lit * first_amp(E) * np.exp(1j * np.angle(E)), a, b), a, b)) * 0.5
                C = np.abs(d.to_image(d.embed(lit * first_amp(E) * np.exp(1j * (2 * np.angle(E) - phi)), a, b), a, b)) * 0.25
            F = F * c1
            t = np.unravel_index(np.argmax(F), F.shape)
            near = (np.abs(wrap(PX - x, d.sf / d.px)) <= 0.51 * d.sf / (PX.shape[1] * d.px)) & (np.abs(wrap(PY - y, d.sf / d.px)) <= 0.51 * d.sf / (PX.shape[0] * d.px))
            env.check(bool(near[t]), "harness: the order does not peak at the requested position")
            rest = Zn + C
            if m == "random" and boot.SEAM.calls == before:
                continue
            if m in ("simple", "random"):
                # every pixel that is on reflects its light in phase (up to a quarter wave) with the spot
                cos = np.cos(np.angle(E) - phi)
                if m == "simple":
                    sure = np.maximum(cos, 0)
                else:       # with draws in 1/42..41/42 and r = 10 only pixels within 0.19 rad of a quarter wave can go either way
                    sure = np.where(np.arccos(np.clip(cos, -1, 1)) < np.pi / 2 - 0.19, cos, np.where(np.abs(cos) < np.sin(0.19) + 1e-6, np.minimum(cos, 0), 0))
                least = max(0.0, float(np.sum(mag * sure))) * d.px ** 2 / d.sf
                tt = np.argwhere((np.abs(wrap(PX - x, d.sf / d.px)) <= 1e-6 * d.sf) & (np.abs(wrap(PY - y, d.sf / d.px)) <= 1e-6 * d.sf))
                env.count("simulations_bounded_" + m, len(tt))
                for q in tt:
                    env.check(I[tuple(q)] >= least * (1 - 1e-4), lambda: "%s of spot (%d, %d), beam %s, padding %s, order %+d: the requested position receives %.4g, at least %.4g is in phase with it" % (m, i, j, case["beam"], (a, b), s, I[tuple(q)], least))
                continue
            dark = F + rest + rest[t] < 0.98 * F[t] if m == "ideal" else F < (0.98 if m == "gs" else 0.95) * F[t]
            n = int(dark.sum())
            env.count("points_compared_" + m, n)
            env.count("simulations_" + m)
            if n == 0:
                env.count("simulations_without_a_comparable_point_" + m)
                continue
            worst = np.unravel_index(np.argmax(np.where(dark, I, -1)), I.shape)
            env.check(I[worst] < I[t], lambda: "%s of spot (%d, %d), beam %s, padding %s, order %+d: sample %s (%.4g) is not darker than the requested position %s (%.4g)" % (
                m, i, j, case["beam"], (a, b), s, tuple(int(q) for q in worst), I[worst], tuple(int(q) for q in t), I[t]))
            top = np.unravel_index(np.argmax(I), I.shape)
            env.outcome((case["dev"], case["N"], m, tuple(int(q) for q in top), pi))
            env.count("brightest_of_all_" + m, int(top == t))
            if lc:
                env.check(top == t, lambda: m + " of spot (%d, %d), beam %s, padding %s: the brightest sample is %s" % (i, j, case["beam"], (a, b), tuple(int(q) for q in top)))
            if not lc and isinstance(sim, S.DMDSimulation) and case["beam"] in ("one", "number"):
                sim.block_zeroth_order()
                env.step()
                B = np.sqrt(sim.image_plane_intensity.astype(float))
                r = np.hypot(*org) / 2
                if np.hypot(PX[t], PY[t]) > r * 1.01:
                    env.close(B[t], I[t], "spot after blocking the zeroth order")
                o = (PX.shape[0] // 2, PX.shape[1] // 2)
                env.check(B[o] == 0, "the zeroth order is still there after blocking it")
    env.sample({"case": dict(case, ops=case["ops"][:3])})


def wrap(v, period):
    import numpy as np
    return v - period * np.round(v / period)


def first_amp(E):
    """|E| * amplitude of a spot hologram: the smallest lit |E| (the amplitude there is 1)."""
    import numpy as np
    m = np.abs(E)
    return float(m[m > 0].min())
