"""P30: units of length and scales of amplitude never matter."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of unit systems x amplitude scales x operations on the real code, every result compared with the reference of the same physical situation (patterns identical, results scaled by the exact factor)"
BOUNDS = {
    "quick": "14 unit systems (toy, metres, micrometres, nanometres, powers of two from 2^-30 to 2^20, pitch, wavelength and focal length scaled together and apart) x 25 pairs of input and target scales (1e-9 to 2.7e8): every profile and window class and a derived profile, gratings and patches by 3 methods, holograms by 4 methods for 3 beams x 3 targets x 2 windows, gs and mraf from explorer-chosen starts, propagation, powers and blocking of the zeroth order with default and explicit radius on 3 paddings; both precisions",
    "thorough": "22 unit systems, 49 pairs of scales, 9 beams x 5 targets, 3 device shapes"}
RULE = "state = (unit system, scales, operation); transition = one operation compared with its reference; an outcome is a distinct (operation, scale factor, pattern)"
ASSUMPTIONS = ["quantities whose true value (or whose intensity) leaves 1e-33..1e33 are not compared in 32 bit"]
SHARDS = 4
SEAM = True
FAST_TRACE = True

# pixel size, wavelength, focal length
UNITS = [[1.0, 0.5, 8.0], [10.8e-6, 370e-9, 0.2], [10.8, 0.37, 2e5], [10800.0, 370.0, 2e8], [2.0 ** -30, 2.0 ** -31, 2.0 ** -27], [2.0 ** 20, 2.0 ** 19, 2.0 ** 23],
         [2.0 ** -17, 2.0 ** -21, 0.25], [1e-9, 5e-10, 8e-9], [1e-3, 5e-4, 8e-3], [1.0, 1e-9, 8.0], [1.0, 0.5, 1e9], [1e-6, 0.5, 8.0], [1e6, 0.5, 8.0], [1.0, 1e6, 1e-6]]
MORE_U = [[1e3, 1e-3, 1e3], [1e-7, 1e-7, 1e-7], [3e8, 5e7, 1e8], [2.0 ** 10, 2.0 ** -20, 2.0 ** 10], [7.3e-5, 1.06e-5, 12.0], [0.0108, 0.00037, 200.0], [1.0, 1e3, 1e3], [1e-5, 1e-9, 1e-2]]
SCALES = [1.0, 2.0 ** -28, 2.0 ** 28, 1e-9, 3e4]
MORE_S = [2.0 ** -12, 1e-6]
BEAMS = ["tilt", "dark", "lg", "one", "neg", "tilted", "number", "wide", "real"]
TARGETS = ["pattern", "hg", "spot1,2", "real", "lg"]


def cases(env):
    T = env.thorough
    units = UNITS + (MORE_U if T else [])
    scales = SCALES + (MORE_S if T else [])
    pairs = [[s, t] for s in scales for t in scales]
    k = 0
    for u in units:
        k += 1
        yield {"kind": "leaf", "u": u, "ops": scales, "mode": "graph" if k % 6 == 1 else "eager"}
        for N in ([4, 3],) + (([5, 5], [3, 6]) if T else ()):
            k += 1
            yield {"kind": "grating", "u": u, "N": N, "neg": k % 2 == 0, "ops": [0, 1, 2, 3], "mode": "eager"}
            for b in BEAMS[:None if T else 3]:
                k += 1
                yield {"kind": "holo", "u": u, "N": N, "neg": k % 2 == 0, "beam": b, "ops": pairs, "mode": "eager"}
                yield {"kind": "lcos", "u": u, "N": N, "beam": b, "ops": pairs, "mode": "eager"}
            yield {"kind": "sim", "u": u, "N": N, "ops": [[b, s] for b in BEAMS[:None if T else 6] for s in scales], "mode": "eager"}


def in_range(env, *values):
    import numpy as np
    return env.f64 or all(1e-33 < abs(float(np.max(np.abs(v)))) < 1e33 for v in values)


def run_case(env, case):
    import tensorflow as tf
    tf.config.run_functions_eagerly(case["mode"] == "eager")
    try:
        globals()[case["kind"]](env, case)
    finally:
        tf.config.run_functions_eagerly(False)


def leaf(env, case):
    import numpy as np, pySLM2 as S, ref
    exact = [np.log2(v) % 1 == 0 for v in case["u"]]
    for which, L in enumerate((case["u"][0], case["u"][1] * case["u"][2] / case["u"][0])):      # lengths in either plane
        pts = np.array([-3.0, -1.25, -0.5, 0.0, 0.25, 0.75, 1.5, 2.75]) * L
        x, y = np.meshgrid(pts, pts[::-1])
        x, y = x.astype(np.float32).astype(float), y.astype(np.float32).astype(float)
        # powers of two keep every coordinate exact, so that the position of an edge is decided
        l2 = 2.0 ** np.round(np.log2(L))
        x2, y2 = np.meshgrid(np.round(pts / L * 64) / 64 * l2, np.round(pts / L * 64)[::-1] / 64 * l2)
        for s in case["ops"]:
            exprs = [["HG", .3 * L, -.2 * L, 1.5 * s, 2.5 * L, 1, 2], ["LG", .3 * L, -.2 * L, 1.5 * s, 2.5 * L, 1, 1], ["SG", .3 * L, -.2 * L, 1.5 * s, 2.5 * L, 2.0],
                     ["Z", s, 7.0 * L, 3, 1, True, True], ["Z", s, 7.0 * L, 4, -2, False, False], ["K", ["f", s]],
                     ["*", ["shift", ["HG", 0.0, .5 * L, s, 2 * L, 0, 1], ["f", .3 * L], ["f", -.1 * L]], ["K", ["f", 0.5]]],
                     ["rx", ["rot", ["LG", .1 * L, -.2 * L, s, 3 * L, 2, 0], ["f", 0.7]], ["f", 1.5]], ["+", ["HG", 0.0, 0.0, s, 2 * L, 0, 0], ["f", s]], ["/", ["HG", 0.0, 0.0, s, 2 * L, 0, 0], ["f", s]]]
            for e in exprs:
                ref.compare_profile(env, ref.build(S, e), e, x, y, "profile %s" % e)
                env.state((case["u"], which, s, e[0]))
                env.outcome((which, s, L, e[0]))
        for e in (["WR", .25 * l2, -.5 * l2, 3.0 * l2, 2.0 * l2], ["WC", .25 * l2, -.5 * l2, 1.75 * l2], ["WC", 0.0, 0.0, .75 * l2], ["WR", 0.0, 0.0, 3.0 * l2, 3.0 * l2], ["Z", 1.0, 1.5 * l2, 0, 0, True, False]):
            ref.compare_profile(env, ref.build(S, e), e, x2, y2, "window %s" % e)
            env.state((case["u"], which, "window", str(e)))


def scripted(u):
    import numpy as np
    return lambda shape: u if int(np.prod(shape)) == u.size else np.resize(u, shape)


def frame(env, got, want, sure, what, shape):
    import numpy as np
    env.step()
    env.check(isinstance(got, np.ndarray) and got.dtype == bool and got.shape == shape, lambda: "%s: state is %s %s" % (what, getattr(got, "dtype", type(got)), getattr(got, "shape", None)))
    bad = sure & (got != want)
    env.count("pixels_decided", int(sure.sum()))
    env.check(not np.any(bad), lambda: "%s: pixel %s is %s" % (what, tuple(np.argwhere(bad)[0].tolist()), bool(got[bad][0])))
    env.outcome_array(got)


def grating(env, case):
    import numpy as np, pySLM2 as S, optics, holo, boot
    nx, ny = case["N"]
    d = optics.Dev(nx, ny, *case["u"])
    p, t = 3.7, 0.45
    dmd = optics.dmd(S, d, p, t, case["neg"])
    eps = 2.0 ** -53 if env.f64 else 2.0 ** -24
    jj, ii = np.meshgrid(np.arange(nx), np.arange(ny))
    org = dmd.first_order_origin
    env.close(np.array([float(org[0]), float(org[1])]), np.array([np.cos(t), np.sin(t)]) * d.sf / (p * d.px), "first_order_origin", scale=d.sf / (p * d.px), tol32=1e-6, tol64=1e-12)
    X, Y = d.fgrid()
    w = 2.3 * d.px
    hg = ["HG", 0.4 * d.px, -0.3 * d.px, 0.9, w, 0, 0]
    import ref
    for k in case["ops"]:
        env.failed_at = k
        # amplitudes and phases as arrays, and as profiles whose lengths carry the unit
        if k % 2 == 0:
            amp, aobj = (ii * 2 + jj * 3) % 5 / 4.0, None
            pin, pobj = 0.9 * ii - 0.4 * jj, None
        else:
            amp, aobj = ref.ev(hg, X, Y)[0], ref.build(S, hg)
            z = ["Z", 1.3, 6.0 * d.px, 2, 0, False, True]
            pin, pobj = ref.ev(z, X, Y)[0], ref.build(S, z)
        args = dict(amp=amp if aobj is None else aobj, phase_in=pin if pobj is None else pobj, phase_out=0.7 * jj)
        want = holo.ideal(d, p, t, amp, pin, 0.7 * jj, case["neg"])
        for patch in (False, True):
            def call(method, **kw):
                if patch:
                    dmd.dmd_state = (ii + jj) % 2 == 0 if method != "ideal" else ((ii + jj) % 2).astype(env.real)
                    dmd.circular_patch(1, 2, args["amp"], args["phase_in"], args["phase_out"], 3.0, method=method, **kw)
                else:
                    dmd.set_dmd_grating_state(method=method, **args, **kw)
                return dmd.dmd_state
            inside = (ii - 1) ** 2 + (jj - 2) ** 2 < 2.25 if patch else np.ones((ny, nx), bool)
            env.state((case["u"], case["N"], case["neg"], k, patch))
            got = call("ideal")
            env.step()
            env.close(got, np.where(inside, want, (ii + jj) % 2), "ideal grating", scale=200.0, tol32=2 * eps, tol64=2 * eps)
            back = (ii + jj) % 2 == 0
            frame(env, call("simple"), np.where(inside, want > 0.5, back), np.abs(want - 0.5) > 400 * eps, "simple grating", (ny, nx))
            prob = holo.random_probability(d, p, t, amp, pin, 0.7 * jj, case["neg"])
            draws = (np.arange(nx * ny) * (7 + k) % 13 / 13.0).reshape(ny, nx)
            boot.SEAM.script = scripted(draws)
            before = boot.SEAM.calls
            try: got = call("random")
            finally: boot.SEAM.script = None
            sure = (np.abs(draws - prob) > 1e-3) if boot.SEAM.calls > before else (amp == 0)
            frame(env, got, np.where(inside, (draws < prob) & (amp > 0), back), sure | ~inside, "random grating", (ny, nx))


def scaled(obj, s):
    return obj if s == 1.0 else obj * s


def holo(env, case):
    import numpy as np, pySLM2 as S, optics, holo, boot
    from props import p14
    nx, ny = case["N"]
    d = optics.Dev(nx, ny, *case["u"])
    p, t = 3.7, 0.45
    dmd = optics.dmd(S, d, p, t, case["neg"])
    eps = 2.0 ** -53 if env.f64 else 2.0 ** -24
    fe, E0 = holo.beams(d)[case["beam"]]
    targets, windows = holo.targets(d), holo.windows(d)
    gerr = 4 * (1 + np.max(np.abs(holo.grating_phase(d, p, t))))
    u = (np.arange(nx * ny) * 7 % 13 / 13.0).reshape(ny, nx)
    memo = {}
    for k, (s, ts) in enumerate(case["ops"]):
        env.failed_at = k
        for q, (tg, wn) in enumerate([(TARGETS[k % len(TARGETS)], "none"), (TARGETS[(k + 2) % len(TARGETS)], ["rect", "array"][k % 2])] if not env.thorough else [(a, b) for a in TARGETS for b in ("none", "rect", "array")]):
            what = "beam %s times %g, target %s times %g, window %s, units %s" % (case["beam"], s, tg, ts, wn, case["u"])
            (ft, T0), (fw, W) = targets[tg], windows[wn]
            if (tg, wn) not in memo:
                memo[tg, wn] = holo.decompose(d, E0, T0, W)
            A, pin, pout, eta0, _, err = memo[tg, wn]
            eta = eta0 * s / ts
            ideal = holo.ideal(d, p, t, A, pin, pout, case["neg"])
            kw = {} if W is None else {"window": fw()}
            beam, target = scaled(fe(), s), scaled(ft(), ts)
            env.state((case["u"], case["N"], case["neg"], case["beam"], s, ts, tg, wn))

            def ok(got, name):
                if in_range(env, eta):
                    env.check(abs(float(got) - eta) <= 200 * eps * abs(eta) * float(np.max(err[A > 0.5])) + 1e-300, lambda: "%s by %s: eta %r, expected %r" % (what, name, got, eta))
            got = dmd.calculate_dmd_state(beam, target, method="ideal", **kw)
            env.step()
            ok(got, "ideal")
            env.close(dmd.dmd_state, ideal, "ideal hologram of " + what, scale=err * 8 + gerr + 30, tol32=2 * eps, tol64=2 * eps)
            slack = eps * 4 * (err * 8 + gerr + 30)
            if (k + q) % 3 == 0:
                ok(dmd.calculate_dmd_state(beam, target, method="simple", **kw), "simple")
                frame(env, dmd.dmd_state, ideal > 0.5, np.abs(ideal - 0.5) > slack, "simple hologram of " + what, (ny, nx))
            elif (k + q) % 3 == 1:
                prob = holo.random_probability(d, p, t, A, pin, pout, case["neg"])
                boot.SEAM.script = scripted(u)
                before = boot.SEAM.calls
                try: got = dmd.calculate_dmd_state(beam, target, method="random", **kw)
                finally: boot.SEAM.script = None
                ok(got, "random")
                sure = (np.abs(u - prob) > 1e-3 + 40 * slack) if boot.SEAM.calls > before else (A == 0)
                frame(env, dmd.dmd_state, (u < prob) & (A > 0), sure, "random hologram of " + what, (ny, nx))
            else:
                wobj, WS = p14.window("rect", d)
                N = (1, 3)[k // 2 % 2]
                if W is None:
                    key = (tg, N)
                    if key not in memo: memo[key] = p14.reference(d, p, t, case["neg"], E0, T0, WS, N, 1.0, eps)
                    r = memo[key]
                    ok(dmd.calculate_dmd_state(beam, target, method="ifta", signal_window=wobj, N=N), "ifta")
                    if r is not None:
                        frame(env, dmd.dmd_state, r[0], r[1], "ifta hologram of " + what, (ny, nx))
    env.sample({"case": dict(case, ops=case["ops"][:2])})


def lcos(env, case):
    import numpy as np, pySLM2 as S, optics, holo, boot, lcosref
    from props import p14, p15
    nx, ny = case["N"]
    d = optics.Dev(nx, ny, *case["u"])
    slm = optics.lcos(S, d)
    fe, E0 = holo.beams(d)[case["beam"]]
    names = ["pat", "hg", "asym", "uniform"]
    targets = p15.targets(d)
    eps = 2.0 ** -53 if env.f64 else 2.0 ** -24
    memo = {}
    for k, (s, ts) in enumerate(case["ops"]):
        env.failed_at = k
        u = (np.arange(nx * ny) * (5 + k % 3) % 11 / 11.0).reshape(ny, nx)
        name = names[k % 4]
        ft, T0 = targets[name]
        beam = scaled(fe(), s)
        for method in ("gs", "mraf"):
            # the two scales are independent for gs; mraf mixes the target with the image field, so that it gets the same one
            f = ts if method == "gs" else s
            key = (method, name, k % 3)
            wobj, W = p14.window(("rect", "corner", "weights")[k % 3], d)
            kw, mm = ({}, None) if method == "gs" else ({"signal_window": wobj, "mixing_factor": 0.7}, 0.7)
            if key not in memo:
                memo[key] = lcosref.iterate(d, E0, T0, 2 * np.pi * u, 2, eps, None if method == "gs" else W, mm)
            r = memo[key]
            for n in (1, 2):
                what = "%s N=%d of beam %s times %g, target %s times %g, units %s" % (method, n, case["beam"], s, name, f, case["u"])
                got, seam = lcosref.run(env, slm, boot.SEAM, u, beam, scaled(ft(), f), what, method, N=n, **kw)
                env.state((case["u"], case["N"], case["beam"], s, ts, method, n, k % 3))
                env.outcome_array(np.round(np.exp(1j * got), 2))
                if seam and n < len(r):
                    env.count("phases_compared", int(r[n][1].sum()))
                    lcosref.phase_close(env, got, r[n][0], r[n][1], what)


def sim(env, case):
    import numpy as np, pySLM2 as S, optics, holo
    nx, ny = case["N"]
    d = optics.Dev(nx, ny, *case["u"])
    dmd, slm = optics.dmd(S, d, 3.3, 0.4), optics.lcos(S, d)
    jj, ii = np.meshgrid(np.arange(nx), np.arange(ny))
    dmd.dmd_state = (2 * ii + 3 * jj) % 5 < 2
    slm.slm_state = 0.7 * ii - 1.1 * jj + 0.2 * ii * jj
    pads = [(0, 0), (2, 1), (nx, ny)]
    sims = [(S.DMDSimulation(dmd, a, b), (a, b), dmd.dmd_state.astype(float)) for a, b in pads] + [(S.SLMSimulation(slm, a, b), (a, b), np.exp(1j * slm.slm_state)) for a, b in pads[:2]]
    beams = holo.beams(d)
    for k, (b, s) in enumerate(case["ops"]):
        env.failed_at = k
        fe, E0 = beams[b]
        for q, (simu, (a, c), M) in enumerate(sims):
            what = "beam %s times %g, simulation %d, units %s" % (b, s, q, case["u"])
            simu.propagate_to_image(scaled(fe(), s))
            env.step()
            env.state((case["u"], case["N"], b, s, q))
            E = np.asarray(E0, complex) * s
            want_in, want_out = d.embed(E, a, c), d.embed(E * M, a, c)
            want = d.to_image(want_out, a, c)
            size = d.px ** 2 / d.sf * float(np.sum(np.abs(want_out)))
            af, ai = d.areas(a, c)
            env.close(simu.input_field, want_in, "input field, " + what, tol32=3e-6)
            env.close(simu.output_field, want_out, "output field, " + what, scale=np.max(np.abs(want_in)), tol32=3e-6)
            if in_range(env, size, size ** 2):
                env.close(simu.image_plane_field, want, "image field, " + what, scale=size, tol32=3e-6)
                env.close(simu.image_plane_intensity, np.abs(want) ** 2, "image intensity, " + what, scale=size ** 2, tol32=1e-5)
            for name, F, area in (("input", want_in, af), ("output", want_out, af), ("image_plane", want, ai)):
                P = float(np.sum(np.abs(F) ** 2)) * area
                if in_range(env, np.max(np.abs(F)) ** 2, P, area, float(np.max(np.abs(F))), size):
                    env.close(float(getattr(simu, "get_%s_power" % name)()), P, "%s power, %s" % (name, what), tol32=1e-4, tol64=1e-9)
                    env.count("powers_compared")
            X, Y = d.igrid(a, c)
            R = np.hypot(X, Y)
            if isinstance(simu, S.DMDSimulation):
                r0 = d.sf / (3.3 * d.px) / 2
                step = d.sf / (PXN(simu) * d.px)
                r = [None, 1.3 * step, 0.0, 2.6 * step][k % 4]
                full = simu.image_plane_field
                if r is None: simu.block_zeroth_order()
                else: simu.block_zeroth_order(r)
                env.step()
                rr = r0 if r is None else r
                got = simu.image_plane_field
                out, ins = R > rr * (1 + 1e-4), R < rr * (1 - 1e-4)
                if in_range(env, rr ** 2, step ** 2):
                    env.check(bool(np.all(got[ins] == 0)), lambda: "blocking within %g, %s: light remains at %s" % (rr, what, np.argwhere(ins & (got != 0))[0].tolist()))
                    env.same(got[out], full[out], "image field outside of %g, %s" % (rr, what))
                    env.count("samples_blocked", int(ins.sum()))
        env.outcome((case["u"], b, s))


def PXN(simu):
    return max(simu.Nx, simu.Ny)
