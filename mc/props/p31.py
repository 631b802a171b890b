"""P31: independent computations may run at the same time."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of thread schedules of the real code up to a preemption bound: two threads under a controlled scheduler that can suspend either at every executed line of the package, results compared with those of each computation alone"
BOUNDS = {
    "quick": "22 computations (profiles, windows, grids, conversions, holograms by all 6 methods, patches, packing, simulations with blocking and powers, Zernike analysis, number images, loads of both controllers) on their own objects, every ordered pair with every suspension of the first at which the second runs to its end (every line for pairs of the same kind, every 37th line from a rotating start for the others), pairs of the same kind also with different frame sizes (every 7th line) and with two suspensions (a 40th of those on a grid of at most 48 x 48 lines); 8 pairs that read one common object, with every suspension and two suspensions on a grid of at least 10 x 10 lines; in 64 bit every 7th suspension of the pairs of the same kind and all of the others with a common object",
    "thorough": "every suspension for every ordered pair, every two suspensions for pairs of the same kind in a rotating half"}
RULE = "state = (pair of computations, schedule); transition = one switch between the threads; an outcome is a distinct (pair, line at which the first was suspended)"
ASSUMPTIONS = ["a thread is suspended only between two lines of the package's own Python source, functions of TensorFlow, numpy and Pillow are single steps; TensorFlow functions run eagerly, so that their lines are steps as well",
               "the random start and the random thresholds depend on the shape only"]
SHARDS = 4
SEAM = True

SIZES = [(6, 4), (6, 4), (4, 5)]


def kinds():
    return ["hg", "lg", "zernike", "derived", "window", "grid", "convert", "ideal", "simple", "random", "ifta", "patch", "grating", "pack", "gs", "mraf",
            "propagate", "block", "analysis", "number", "alp", "lux"]


SHARED = ["profile", "derived", "device_grid", "device_convert", "two_simulations", "parameter", "simulation_grid", "lcos"]


def cases(env):
    T = env.thorough
    k = 0
    ks = kinds()
    for a in ks:
        if a in ("alp", "lux") and env.f64:
            continue
        for v in ((0, 1), (0, 2), (2, 1)):
            yield {"kind": "pair", "pair": [a, a], "variants": list(v), "stride": 1 if T or (v == (0, 1) and not env.f64) else 7, "phase": v[0]}
        yield {"kind": "two", "pair": [a, a], "variants": [0, 1], "stride": 2 if T else 40}
        others = [b for b in ks if b != a and b not in ("alp", "lux")]
        for b in others:
            k += 1
            if env.f64 and not T:
                continue
            yield {"kind": "pair", "pair": [a, b], "variants": [0, 1], "stride": 1 if T else 37, "phase": k}
    for s in SHARED:
        yield {"kind": "shared", "what": s, "stride": 1}


def dev(v):
    import optics
    nx, ny = SIZES[v]
    return optics.Dev(nx, ny, 1.0 + 0.5 * v, 0.5, 8.0)


def make(kind, v):
    """A computation on objects of its own: a function that returns arrays, numbers and bytes.  Variants differ in every parameter."""
    import numpy as np, pySLM2 as S, optics, holo, ref
    d = dev(v)
    nx, ny = d.Nx, d.Ny
    X, Y = d.fgrid()
    if kind == "hg":
        def f():
            p = S.HermiteGaussian(0.3 + v, -0.2, 1.5 + v, 2.5, n=1 + v, m=2)
            a = p(X, Y); p.x0 = 1.0 + v; p.w = 3.0 - v
            return [a, p(X, Y), np.float64(p.x0)]
    elif kind == "lg":
        def f(): return [S.LaguerreGaussian(0.3, -0.2 - v, 1.5, 2.5 + v, l=1 + v, p=1)(X, Y), S.SuperGaussian(0.1 * v, 0.2, 1.0 + v, 2.0, 2.0 + v)(X, Y)]
    elif kind == "zernike":
        def f():
            p = S.Zernike(1.0 + v, 5.0, n=3 + v, m=1 - v, normalize=v == 0, extrapolate=True) if v < 2 else S.Zernike(0.5, 4.0, 4, -2)
            a = p(X, Y); p.a = 2.5 - v
            return [a, p(X, Y)]
    elif kind == "derived":
        def f():
            p = S.HermiteGaussian(0.3, -0.2 * v, 1.5, 2.5 + v, n=1, m=0)
            q = (p + (1 + v)) * p.shift(0.5, v) - p.rotate(0.4 + v).rescale_x(2.0 + v)
            r = (q.as_complex_profile() * (2 - 1j * v)) / 3.0
            return [q(X, Y), r(X, Y), (-q)(X, Y)]
    elif kind == "window":
        def f():
            w, c = S.RectangularWindowRectangle(0.5, v - 0.5, 3.2 + v, 2.4), S.RectangularWindowCircular(0.5 * v, 0.25, 1.6 + v)
            a = w(X, Y); w.wx = 1.5 + v
            return [a, w(X, Y), c(X, Y), (w * c)(X, Y)]
    elif kind == "grid":
        def f():
            s = optics.dmd(S, d)
            m = S.SLMSimulation(s, 1 + v, 2)
            return list(s.fourier_plane_grid) + list(s.image_plane_grid) + list(m.image_plane_padded_grid) + list(m.fourier_plane_padded_grid) + [m.fourier_plane_pixel_area, m.image_plane_pixel_area]
    elif kind == "convert":
        def f():
            s = optics.dmd(S, d)
            p = S.HermiteGaussian(0.3, 0.1 * v, 1.5, 2.5, n=1, m=v)
            return [s.profile_to_tensor(o, at_fourier_plane=g, complex=c).numpy() for o in (p, 2.5 + v, X * (1 + v)) for g in (True, False) for c in (False, True)]
    elif kind in ("ideal", "simple", "random", "ifta"):
        beam, target = holo.beams(d)[("tilt", "dark", "wide")[v]][1], holo.targets(d)[("pattern", "real", "spot1,2")[v]][1]
        def f():
            s = optics.dmd(S, d, 3.3 + v, 0.4 - v, v == 1)
            kw = {"signal_window": (X + v > 0).astype(float), "N": 2 + v} if kind == "ifta" else {}
            if kind == "random" and v: kw["r"] = 3.0 + v
            if kind == "ideal" and v: kw["window"] = np.exp(-(X / 4) ** 2)
            eta = s.calculate_dmd_state(beam, target, method=kind, **kw)
            return [s.dmd_state, float(eta)] + [float(q) for q in s.first_order_origin]
    elif kind == "patch":
        def f():
            s = optics.dmd(S, d, 3.3 + v, 0.4, v == 1)
            s.set_dmd_state_on()
            s.circular_patch(1, 2 + v % 2, 0.9, 0.3 * v, 0.5, 3.0 + v, method="simple")
            a = s.dmd_state
            s.circular_patch(3, 1, 1.0, 0.0, 0.7 * v, 2.5, method="random")
            return [a, s.dmd_state]
    elif kind == "grating":
        def f():
            s = optics.dmd(S, d, 4.1 + v, 1.4, v == 1)
            out = []
            for m in ("ideal", "simple", "random"):
                s.set_dmd_grating_state(0.7 + 0.1 * v, 0.3 * X, 0.2 * v * Y, method=m)
                out.append(s.dmd_state)
            return out
    elif kind == "pack":
        def f():
            s = optics.dmd(S, d)
            s.dmd_state = (np.arange(nx * ny).reshape(ny, nx) * (3 + v)) % 5 < 2
            return [np.frombuffer(s.pack_dmd_state(), np.uint8), s.dmd_state]
    elif kind in ("gs", "mraf"):
        beam, target = holo.beams(d)[("tilt", "neg", "one")[v]][1], np.abs(holo.targets(d)["pattern"][1]) + v
        def f():
            s = optics.lcos(S, d)
            kw = {"signal_window": (X + v > 0).astype(float), "mixing_factor": 0.4 + 0.2 * v} if kind == "mraf" else {}
            s.calculate_hologram(beam, target, method=kind, N=2 + v, **kw)
            a = s.slm_state
            s.reset_slm_state()
            return [a, s.slm_state]
    elif kind in ("propagate", "block"):
        beam = holo.beams(d)[("tilt", "dark", "one")[v]][1]
        def f():
            s = optics.dmd(S, d) if v != 1 else optics.lcos(S, d)
            if v != 1: s.dmd_state = (np.arange(nx * ny).reshape(ny, nx) * 3) % 7 < 3
            else: s.slm_state = 0.3 * X - 0.2 * Y * X
            if kind == "block":
                s = optics.dmd(S, d, 3.3 + v, 0.4)
                s.dmd_state = (np.arange(nx * ny).reshape(ny, nx) * (3 + v)) % 7 < 3
                m = S.DMDSimulation(s, v, 2)
            else:
                m = S.SLMSimulation(s, 1, v)
            m.propagate_to_image(beam)
            out = [m.input_field, m.output_field, m.image_plane_field, m.get_input_power(), m.get_output_power(), m.get_image_plane_power()]
            if kind == "block":
                m.block_zeroth_order(*([] if v == 0 else [0.7 * v]))
                out += [m.image_plane_intensity, m.get_image_plane_power()]
                m.clear()
                out.append(np.array(m.image_plane_field is None))
            return out
    elif kind == "analysis":
        def f():
            from pySLM2.analysis import zernike_decomposition, remove_trivial_phase
            m = np.cos(0.2 * np.arange(81).reshape(9, 9) * (1 + v))
            c, r = zernike_decomposition(m, 4.0 - 0.5 * v, 4 + v, reconstruct=True)
            return [np.asarray(c), np.asarray(r), remove_trivial_phase(m, 3.0 + v, remove_defocus=v == 1)]
    elif kind == "number":
        def f():
            from pySLM2.util.sample import number_image
            return [number_image(17 + 5 * v, 40 + v, 32), number_image(8 - v, 24, 20 + v)]
    else:
        raise KeyError(kind)
    return f


def pair_controllers(kind, variants):
    """Loads of two controllers of one vendor library, each on its own device."""
    import numpy as np, devsim
    from props import p21, p22
    mod = p21 if kind == "alp" else p22
    cs = mod.controllers(False, False, (6, 4)) if kind == "alp" else mod.controllers(False, (6, 4))
    fs = []
    for i, (device, c) in enumerate(cs):
        frames = [np.array(f) for f in p21.frames((6, 4), 3 * variants[i] + i, 2 + i)]

        def f(device=device, c=c, frames=frames):
            c.initialize()
            out = [np.array([c.Nx, c.Ny])]
            for fr in (frames, frames[::-1]):
                c.load_multiple(fr)
                for _ in range(len(fr) + 1):
                    if kind == "alp": device.trigger("ALP_EDGE_RISING")
                    else: c.fire_software_trigger()
                    m = device.shown if kind == "alp" else device.mirrors
                    out.append(np.array(m))
            c.load_single(frames[0])
            out.append(np.array(device.shown if kind == "alp" else device.mirrors))
            out.append(c.number_image(3 + len(frames)))
            if kind == "alp": c.close()
            return out
        fs.append(f)
    return fs


def shared(what):
    """Two computations that only read one common object, created anew for every schedule."""
    import numpy as np, pySLM2 as S, optics, holo
    d = dev(0)
    X, Y = d.fgrid()
    if what == "profile":
        p = S.HermiteGaussian(0.3, -0.2, 1.5, 2.5, n=1, m=2)
        return [lambda: [p(X, Y), p(X[0], Y[0])], lambda: [p(Y, X), p(X * 2, Y)]]
    if what == "derived":
        p = S.LaguerreGaussian(0.3, -0.2, 1.5, 2.5, l=1, p=1)
        return [lambda: [(p * 2)(X, Y), p.shift(1, 2)(X, Y)], lambda: [(p + 1j)(X, Y), p.rotate(0.3)(X, Y)]]
    s = optics.dmd(S, d, 3.3, 0.4)
    s.dmd_state = (np.arange(d.Nx * d.Ny).reshape(d.Ny, d.Nx) * 3) % 7 < 3
    if what == "device_grid":
        return [lambda: list(s.fourier_plane_grid) + list(s.image_plane_grid), lambda: list(s.image_plane_grid) + list(s.fourier_plane_grid) + [s.scaling_factor]]
    if what == "device_convert":
        p = S.HermiteGaussian(0.3, -0.2, 1.5, 2.5, n=1, m=0)
        return [lambda: [s.profile_to_tensor(p).numpy(), s.profile_to_tensor(2.0).numpy()], lambda: [s.profile_to_tensor(p, at_fourier_plane=False).numpy(), s.profile_to_tensor(X, complex=True).numpy()]]
    if what in ("two_simulations", "lcos"):
        if what == "lcos":
            s = optics.lcos(S, d); s.slm_state = 0.3 * X - 0.2 * Y * X
        b = [holo.beams(d)[n][1] for n in ("tilt", "dark")]

        def f(i):
            def g():
                m = S.SLMSimulation(s, 1 + i, 2 - i)
                m.propagate_to_image(b[i])
                return [m.input_field, m.image_plane_field, m.get_output_power(), m.get_image_plane_power(), s.dmd_state if what != "lcos" else s.slm_state]
            return g
        return [f(0), f(1)]
    if what == "parameter":
        p = S.ConstantProfile(1.5)
        q = S.SuperGaussian(0, 0, 1.0, 2.0, 2.0)
        return [lambda: [(p * q)(X, Y), np.float64(q.w)], lambda: [(q - p)(X, Y), np.float64(q.x0), q.as_complex_profile()(X, Y)]]
    m = S.DMDSimulation(s, 2, 1)
    m.propagate_to_image(1.0)
    return [lambda: list(m.image_plane_padded_grid) + [m.image_plane_intensity, m.get_input_power()], lambda: list(m.fourier_plane_padded_grid) + [m.get_image_plane_power(), m.output_field, m.input_intensity]]


def equal(env, got, want, what):
    import numpy as np
    env.check(isinstance(got, list) and len(got) == len(want), lambda: "%s: returned %s" % (what, type(got)))
    for q, (g, w) in enumerate(zip(got, want)):
        g, w = np.asarray(g), np.asarray(w)
        env.check(g.dtype == w.dtype and g.shape == w.shape, lambda: "%s, result %d: %s %s, alone %s %s" % (what, q, g.dtype, g.shape, w.dtype, w.shape))
        if g.dtype.kind in "fc":
            env.close(g, w, "%s, result %d" % (what, q), scale=float(np.max(np.abs(w))) if w.size else 1.0, tol32=1e-5, tol64=1e-10)
        else:
            env.same(g, w, "%s, result %d" % (what, q))


def run_case(env, case):
    import numpy as np, tensorflow as tf, boot, interleave, os
    import pySLM2
    root = os.path.dirname(os.path.abspath(pySLM2.__file__)) + os.sep
    tf.config.run_functions_eagerly(True)
    boot.SEAM.script = lambda shape: (np.arange(int(np.prod(shape))) * 7 % 13 / 13.0).reshape(shape)
    try:
        if case["kind"] == "shared":
            name, new = case["what"], lambda: shared(case["what"])
        else:
            a, b = case["pair"]
            name = "%s and %s" % (a, b)
            if a in ("alp", "lux"):
                if a == b: new = lambda: pair_controllers(a, case["variants"])
                else: new = lambda: [pair_controllers(a, case["variants"])[0], make(b, case["variants"][1])]
            else:
                new = lambda: [make(a, case["variants"][0]), make(b, case["variants"][1])]
        alone, lines = [], []
        for i in (0, 1):
            r, _, _ = interleave.execute([new()[i], lambda: None], [], root)
            if r[0][1] is not None:
                raise r[0][1]
            alone.append([np.array(q, copy=True) for q in r[0][0]])
            lines.append(r[0][2])
        env.check(lines[0] >= 1 and lines[1] >= 1, "harness: no line of the package was executed")

        def schedule(plan):
            try:
                r, forced, where = interleave.execute(new(), plan, root)
            except interleave.Deadlock as e:
                env.check(False, "%s under the schedule %s: %s" % (name, plan, e))
            env.step(len(plan) + 1)
            env.state((name, case.get("variants"), plan))
            env.outcome((name, where[0][:1], where[1][:1]))
            env.count("schedules")
            env.count("schedules_in_which_a_thread_had_to_wait", min(forced, 1))
            for i in (0, 1):
                w = "%s, schedule %s (suspended at %s): computation %d" % (name, plan, where, i)
                if r[i][1] is not None:
                    e = r[i][1]
                    env.check(False, lambda: "%s raised %s: %s" % (w, type(e).__name__, str(e)[:300]))
                equal(env, r[i][0], alone[i], w)

        st = case["stride"]
        if case["kind"] == "two":
            q = 0
            n = (min(lines[0], 48), min(lines[1], 48))
            for i in range(1, lines[0] + 1, max(1, lines[0] // n[0])):
                for j in range(1, lines[1] + 1, max(1, lines[1] // n[1])):
                    q += 1
                    if (i + 3 * j) % st == 0:
                        schedule([i, j])
        else:
            for i in range(1 + case.get("phase", 0) % st, lines[0] + 1, st):
                schedule([i])
        if case["kind"] == "shared":
            st = 1 if env.thorough else max(1, max(lines) // 10)
            for i in range(1, lines[0] + 1, st):
                for j in range(1, lines[1] + 1, st):
                    schedule([i, j])
        env.sample({"case": case, "lines": lines})
    finally:
        boot.SEAM.script = None
        tf.config.run_functions_eagerly(False)
