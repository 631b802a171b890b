"""P17: every DMD operation yields its frame regardless of history."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of operation histories (all words up to a length over all frame operations of two devices, random draws supplied by the explorer) on the real DMD class against a reference frame per device; exhaustive enumeration of patch centres and diameters on a half-pixel lattice"
BOUNDS = {
    "quick": "two devices (5x4, positive order; 4x6, negative order, other period and angle): every sequence of 2 of 39 operations (on, off, switching the diffraction order, gratings ideal/simple/random, 12 patches: on the exact rim, off-frame, empty, covering, gray and Boolean, 5 argument types, holograms ideal/simple/random, direct assignment of Boolean, gray, integer and other-precision frames) on fresh devices, and every sequence of 3 of the same inside long histories for the 24 most different ones; every patch with centre and diameter on the half-pixel lattice -2..N+1 x 0..14 of a 5x4 device; sessions of 137 devices that come and go, for every ordered pair of 8 operations; the presets; both precisions",
    "thorough": "every sequence of 3 of all 39 operations in long histories; quarter-pixel lattice on two devices"}
RULE = "state = (operation word window, frame of both devices); transition = one operation followed by the comparison of both devices' frames; an outcome is a distinct frame"
ASSUMPTIONS = ["draws of the random method come from tf.random.uniform (otherwise only pixels that no draw can change are compared)", "pixels whose on/off decision is within rounding are carried as unknown and not compared"]
SHARDS = 4
SEAM = True
DEVS = (dict(N=(5, 4), p=3.3, t=0.4, neg=False), dict(N=(4, 6), p=4.7, t=-1.1, neg=True))

# patch: (i, j, d, argument type, amp, phase_in, phase_out, method)
PATCHES = [(0, 0, 4, "int", 1, 0, 0, "simple"), (2, 2, 2, "i64", .7, .5, 0, "ideal"), (1.5, 2.25, 2.6, "float", .5, "map", 1.0, "ideal"),
           (-1, 5, 5, "f32", .9, 0, "map", "simple"), (9, 9, 3, "int", 1, 0, 0, "ideal"), (9, -9, 3, "float", 1, 0, 0, "simple"),
           (1, 1, 0, "int", 1, 0, 0, "ideal"), (2, 1, 50, "int", .6, "map", 0, "ideal"), (1.5, 1.5, 50.0, "f64", .9, 0, .3, "simple"),
           (3, 1, 3, "float", .5, 0, .7, "random"), (0.5, 3.5, 1, "f64", 1, 0, 0, "ideal"), (3, 3, 3, "int", "map", .2, "map", None)]
FULL = [["on"], ["off"], ["grating", 1, 0, 0, "simple"], ["grating", .5, .4, "map", "ideal"], ["grating", "map", "map", .3, "simple"],
        ["grating", .5, 0, .7, "random"], ["grating", None, None, None, None], ["holo", "ideal"], ["holo", "simple"], ["holo", None], ["assign", "bool"], ["assign", "gray"], ["assign", "int"], ["assign", "f4"], ["assign", "f8"]]
OPS = [[0] + f for f in FULL] + [[0, "patch", k] for k in range(12)] + [
    [1, "on"], [1, "grating", .5, .4, "map", "ideal"], [1, "grating", "map", "map", .3, "simple"], [1, "holo", "simple"], [1, "holo", "ideal"],
    [1, "patch", 0], [1, "patch", 1], [1, "patch", 2], [1, "patch", 8], [1, "assign", "gray"], [0, "neg"], [1, "neg"]]
# long sessions: the first on more devices than any cache holds, all of them dropped, then the second on a new one
SESSION = ["grating ideal", "grating simple", "grating random", "patch simple", "holo ideal", "holo simple", "holo random", "holo ifta"]
CORE = [OPS[k] for k in (0, 1, 3, 4, 5, 7, 8, 10, 11, 12, 15, 16, 17, 18, 20, 21, 22, 23, 26, 28, 30, 32, 34, 37)]


def cases(env):
    import tours
    for a, b in itertools.product(range(len(OPS)), repeat=2):
        yield {"mode": "eager", "ops": [OPS[a], OPS[b]]}
    for s in tours.segments(tours.de_bruijn(OPS if env.thorough else CORE, 3), 300, 2):
        yield {"mode": "graph", "ops": s}
    q = 4 if env.thorough else 2
    for N in ([5, 4],) + (([3, 7],) if env.thorough else ()):
        for i in range(-2 * q, (N[1] + 1) * q + 1):
            yield {"mode": "mask", "N": N, "ops": [[i / q, j / q] for j in range(-2 * q, (N[0] + 1) * q + 1)], "q": q}
    for q, (a, b) in enumerate(itertools.product(SESSION, repeat=2)):
        yield {"mode": "session", "N": [4 + q % 8, 3 + q // 8], "ops": [[a, b]]}
    for k in range(3):
        yield {"mode": "preset", "ops": [k]}


def smap(d, name):
    import numpy as np
    jj, ii = np.meshgrid(np.arange(d.Nx), np.arange(d.Ny))
    return {"amp": ((ii * 2 + jj * 3) % 5) / 4.0, "in": 0.9 * ii - 0.4 * jj, "out": 1.7 * jj + 0.3 * ii - 0.5}[name]


def typed(v, t):
    import numpy as np
    return {"int": int, "float": float, "i64": np.int64, "f32": np.float32, "f64": np.float64}[t](v)


class Model(object):
    """Reference frame of one device: values, Boolean or gray, and which pixels are known."""

    def __init__(self, spec):
        import numpy as np, optics
        self.d = optics.Dev(*spec["N"])
        self.p, self.t, self.neg = spec["p"], spec["t"], spec["neg"]
        self.set(np.zeros((self.d.Ny, self.d.Nx)), True)

    def set(self, v, is_bool, sure=None):
        import numpy as np
        self.v, self.b = np.array(v, float), is_bool
        self.sure = np.ones(self.v.shape, bool) if sure is None else np.array(sure)

    def grating(self, env, amp, pin, pout, method, draws, err=1.0):
        import numpy as np, holo
        slack = 1e-9 if env.f64 else 3e-5
        ideal = holo.ideal(self.d, self.p, self.t, amp, pin, pout, self.neg)
        if method == "ideal":
            return ideal, False, np.ones(ideal.shape, bool)
        if method == "simple":
            return (ideal > 0.5).astype(float), True, np.abs(ideal - 0.5) > slack * np.maximum(err, 1.0)
        prob = holo.random_probability(self.d, self.p, self.t, amp, pin, pout, self.neg)
        tol = slack * 10 * np.maximum(err, 1.0) + (2e-2 if not env.f64 else 2e-6) * (np.asarray(amp) > 0.9999)
        if draws is None:
            return (prob > 0.5).astype(float), True, (prob > 1 - 1e-9) | (amp == 0)
        return (draws < prob).astype(float), True, (np.abs(draws - prob) > tol) | (amp == 0)


def patch_mask(d, i, j, dia):
    import numpy as np
    jj, ii = np.meshgrid(np.arange(d.Nx), np.arange(d.Ny))
    return 4 * ((ii - float(i)) ** 2 + (jj - float(j)) ** 2) < float(dia) ** 2


def draws_for(shape, k):
    import numpy as np
    return ((np.arange(shape[0] * shape[1]) * 7 + 3 * k) % 11 / 11.0).reshape(shape)


def run_case(env, case):
    import tensorflow as tf
    tf.config.run_functions_eagerly(case["mode"] == "eager")
    try:
        if case["mode"] == "preset":
            return preset(env, case)
        if case["mode"] == "session":
            return session(env, case)
        if case["mode"] == "mask":
            return masks(env, case)
        history(env, case)
    finally:
        tf.config.run_functions_eagerly(False)


def compare(env, dmd, m, what):
    import numpy as np
    s = dmd.dmd_state
    env.check(isinstance(s, np.ndarray) and s.shape == (m.d.Ny, m.d.Nx), lambda: "%s: state is %s of shape %s" % (what, type(s), getattr(s, "shape", None)))
    env.check(m.b is None or (s.dtype == bool if m.b else s.dtype.kind == "f"), lambda: "%s: element type %s, expected %s" % (what, s.dtype, "bool" if m.b else "a gray (floating) frame"))
    env.close(np.where(m.sure, s.astype(float), 0), np.where(m.sure, m.v, 0), what, scale=1.0)


def history(env, case):
    import numpy as np, pySLM2 as S, optics, holo, boot
    seam = boot.SEAM
    ms = [Model(s) for s in DEVS]
    devs = [optics.dmd(S, m.d, m.p, m.t, m.neg) for m in ms]
    ctl = optics.dmd(S, ms[0].d, ms[0].p, ms[0].t, ms[0].neg)      # never touched
    prev, held = [], []
    for k, op in enumerate(case["ops"]):
        env.failed_at = k
        w, name, args = op[0], op[1], op[2:]
        dmd, m, what = devs[w], ms[w], "operation %d %s" % (k, op)
        n = m.d.Nx * m.d.Ny
        draws = draws_for((m.d.Ny, m.d.Nx), k)
        before = seam.calls
        seam.script = lambda shape: draws.reshape(shape) if int(np.prod(shape)) == n else np.resize(draws, shape)
        bystander = devs[1 - w].dmd_state.copy()
        try:
            if name == "on": dmd.set_dmd_state_on(); m.set(np.ones((m.d.Ny, m.d.Nx)), True)
            elif name == "off": dmd.set_dmd_state_off(); m.set(np.zeros((m.d.Ny, m.d.Nx)), True)
            elif name == "neg": dmd.negative_order = not dmd.negative_order; m.neg = not m.neg
            elif name == "assign":
                a = optics.bits(0b1011001110001111010110111001, (m.d.Ny, m.d.Nx))
                if args[0] == "gray": a = (0.125 + 0.7 * a).astype(env.real)
                if args[0] == "int": a = a.astype(np.int64)
                if args[0] == "f4": a = (0.125 + 0.7 * a).astype(np.float32)
                if args[0] == "f8": a = (0.3 + 0.4 * a).astype(np.float64)
                dmd.dmd_state = a.copy(); m.set(a, {"bool": True, "int": None}.get(args[0], False))
                held.append((dmd.dmd_state, a))
            elif name == "grating":
                if args[0] is None:
                    dmd.set_dmd_grating_state()
                    amp, pin, pout, method = 1, 0, 0, "random"
                else:
                    amp, pin, pout, method = args
                    amp, pin, pout = [smap(m.d, t) if v == "map" else v for v, t in ((amp, "amp"), (pin, "in"), (pout, "out"))]
                    dmd.set_dmd_grating_state(amp=amp, phase_in=pin, phase_out=pout, method=method)
                m.set(*m.grating(env, amp, pin, pout, method, draws if seam.calls > before else None))
            elif name == "holo":
                bn, tn = ("tilt", "pattern") if w == 0 else ("hg", "real")
                fe, E = holo.beams(m.d)[bn]
                ft, Tg = holo.targets(m.d)[tn]
                A, pin, pout, _, _, err = holo.decompose(m.d, E, Tg)
                if args[0] is None: dmd.calculate_dmd_state(fe(), ft())
                else: dmd.calculate_dmd_state(fe(), ft(), method=args[0])
                v, b, sure = m.grating(env, A, pin, pout, args[0] or "random", draws if seam.calls > before else None, err)
                m.set(v, b, sure & (err < 1e3))
            else:
                i, j, dia, ty, amp, pin, pout, method = PATCHES[args[0]]
                ti, tj, td = typed(i, ty), typed(j, ty), typed(dia, ty)
                amp, pin, pout = [smap(m.d, t) if v == "map" else v for v, t in ((amp, "amp"), (pin, "in"), (pout, "out"))]
                old, old_b, old_sure = m.v, m.b, m.sure
                raw = dmd.dmd_state.copy()
                if method is None: dmd.circular_patch(ti, tj, amp, pin, pout, td)
                else: dmd.circular_patch(ti, tj, amp, pin, pout, td, method=method)
                v, b, sure = m.grating(env, amp, pin, pout, method or "random", draws if seam.calls > before else None)
                mask = patch_mask(m.d, ti, tj, td)
                m.set(np.where(mask, v, old), old_b if b else False, np.where(mask, sure, old_sure))
                now = dmd.dmd_state
                if now.shape == raw.shape:
                    env.check(np.array_equal(now[~mask].astype(float), raw[~mask].astype(float)), lambda: what + ": changed pixels outside the patch")
        finally:
            seam.script = None
        env.step()
        prev = (prev + [op])[-3:]
        for q in (0, 1):
            compare(env, devs[q], ms[q], what + (", device %d" % q))
        for h, a in held[-6:]:
            env.check(np.array_equal(h, a), what + ": changed a frame that was assigned earlier")
        env.check(np.array_equal(bystander, devs[1 - w].dmd_state), what + ": changed the other device")
        env.state((case["mode"], prev, ms[0].v.round(4).tobytes(), ms[1].v.round(4).tobytes(), ms[0].b, ms[1].b))
        env.outcome_array(devs[w].dmd_state)
        env.count("unknown_pixels", int((~ms[w].sure).sum()))
    env.check(not np.any(ctl.dmd_state) and ctl.dmd_state.dtype == bool, "a device without operations is not all off")
    env.sample({"ops": case["ops"][:6]})


def session(env, case):
    """Hundreds of devices that come and go; frame shapes of its own, so that graphs are traced anew in every case."""
    import gc
    import numpy as np, pySLM2 as S, optics, holo, boot
    from props import p14
    d = optics.Dev(*case["N"])
    fe, E = holo.beams(d)["tilt"]
    fw, W = p14.window("rect", d)
    eps = 2.0 ** -53 if env.f64 else 2.0 ** -24
    draws = draws_for((d.Ny, d.Nx), 1)

    def do(op, k, judged=True):
        m = Model(dict(N=case["N"], p=3.3 + 0.01 * k, t=0.4 - 0.003 * k, neg=k % 3 == 1))
        dmd = optics.dmd(S, m.d, m.p, m.t, m.neg)
        name, method = op.split()
        T = np.zeros((d.Ny, d.Nx)); T[k % d.Ny, (k * 3) % d.Nx] = 1; T[0, 0] += 0.3
        before = boot.SEAM.calls
        boot.SEAM.script = lambda shape: draws.reshape(shape) if int(np.prod(shape)) == draws.size else np.resize(draws, shape)
        try:
            if name == "grating": dmd.set_dmd_grating_state(0.8, 0.3, 1.0 - 0.01 * k, method=method)
            elif name == "patch": dmd.circular_patch(1, 2, 0.8, 0.3, 1.0 - 0.01 * k, 3.0, method=method)
            elif method == "ifta": dmd.calculate_dmd_state(E, T, method=method, signal_window=fw, N=2)
            else: dmd.calculate_dmd_state(E, T, method=method)
        finally:
            boot.SEAM.script = None
        env.step()
        if not judged: return
        seam = draws if boot.SEAM.calls > before else None
        if method == "ifta":
            r = p14.reference(d, m.p, m.t, m.neg, E, T, W, 2, 1.0, eps)
            if r is None: return
            m.set(r[0], True, r[1])
        elif name == "holo":
            A, pin, pout, _, _, err = holo.decompose(d, E, T)
            v, b, sure = m.grating(env, A, pin, pout, method, seam, err)
            m.set(v, b, sure & (err < 1e3))
        else:
            v, b, sure = m.grating(env, 0.8, 0.3, 1.0 - 0.01 * k, method, seam)
            mask = patch_mask(m.d, 1, 2, 3.0) if name == "patch" else np.ones(v.shape, bool)
            m.set(np.where(mask, v, 0), True if b else False, sure | ~mask)
        compare(env, dmd, m, "%s on device %d of a session" % (op, k))
        env.outcome_array(dmd.dmd_state)
    for a, b in case["ops"]:
        for k in range(132): do(a, k, k % 11 == 0)
        gc.collect()
        for k in range(132, 135): do(b, k)
        for k in range(135, 137): do(a, k)
        env.state(("session", a, b))


def masks(env, case):
    import numpy as np, pySLM2 as S, optics
    m = Model(dict(N=case["N"], p=3.3, t=0.4, neg=False))
    dmd = optics.dmd(S, m.d, m.p, m.t, m.neg)
    kinds = ["float", "f32", "f64"]
    for k, (i, j) in enumerate(case["ops"]):
        env.failed_at = k
        for dd in range(0, 14 * case["q"] + 1):
            dia = dd / case["q"]
            integral = all(float(v).is_integer() for v in (i, j, dia))
            ty = (["int", "i64"] + kinds)[(k + dd) % 5] if integral else kinds[(k + dd) % 3]
            dmd.set_dmd_state_on()
            dmd.circular_patch(typed(i, ty), typed(j, ty), 0.5, 0.0, 0.0, typed(dia, ty), method="ideal")
            env.step()
            got = dmd.dmd_state != 1.0           # the ideal grating of amplitude 1/2 never reaches 1
            want = patch_mask(m.d, i, j, dia)
            env.check(got.shape == want.shape and np.array_equal(got, want), lambda: "patch at (%s, %s) of diameter %s (%s): covers %s, expected %s" % (i, j, dia, ty, np.argwhere(got).tolist(), np.argwhere(want).tolist()))
            env.outcome_array(got)
            env.state(("mask", case["N"], i, j, dia))
    env.sample({"mask": case["ops"][:2]})


def preset(env, case):
    import numpy as np, pySLM2 as S, optics, holo
    cls = [S.DLP9500, S.DLP7000, S.DLP9000][case["ops"][0]]
    dmd = cls(1.0, 1.0, 7.1, 0.6, negative_order=bool(case["ops"][0] % 2))
    d = optics.Dev(dmd.Nx, dmd.Ny)
    tol = 1e-9 if env.f64 else 5e-3
    want = holo.ideal(d, 7.1, 0.6, 0.8, 0.3, 1.0, bool(case["ops"][0] % 2))
    dmd.set_dmd_state_on(); dmd.circular_patch(100, 517, 0.8, 0.3, 1.0, 333, method="ideal"); env.step(2)
    mask = patch_mask(d, 100, 517, 333)
    env.close(dmd.dmd_state, np.where(mask, want, 1.0), "%s: ideal patch on the lit device" % cls.__name__, scale=1.0, tol32=tol, tol64=tol)
    dmd.set_dmd_grating_state(0.8, 0.3, 1.0, method="simple"); env.step()
    sure = np.abs(want - .5) > tol
    env.check(dmd.dmd_state.dtype == bool and np.array_equal(dmd.dmd_state[sure], want[sure] > .5), "%s: simple grating" % cls.__name__)
    dmd.circular_patch(-20, dmd.Nx + 5, 0, 0, 0, 200.5, method="simple"); env.step()
    mask = patch_mask(d, -20, dmd.Nx + 5, 200.5)
    w2 = np.where(mask, False, want > .5)
    env.check(dmd.dmd_state.dtype == bool and np.array_equal(dmd.dmd_state[sure | mask], w2[sure | mask]), "%s: dark corner patch" % cls.__name__)
    dmd.set_dmd_state_off(); env.step()
    env.check(dmd.dmd_state.dtype == bool and dmd.dmd_state.shape == (dmd.Ny, dmd.Nx) and not dmd.dmd_state.any(), "off")
    env.outcome_array(mask)
    env.state(("preset", cls.__name__))
