"""P29: a phase SLM always holds the pattern of its last operation."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of operation histories (all words up to a length over all pattern operations of two devices, random starts supplied by the explorer) on the real phase SLM and its simulation against a reference pattern per device"
BOUNDS = {
    "quick": "two devices (4x3 and 3x5 in other units): every sequence of 2 of 31 operations (reset, gs with 3 beams, 3 targets, N = 0, 1, 3 and default method, mraf with 3 signal windows, default and explicit mixing factors, direct assignment of real, other-precision, integer, complex-typed, negative and many-turn patterns, overwriting the pattern in place, simulating) on fresh devices, and every sequence of 3 of 22 of them inside long histories; all patterns and the simulated fields compared after every operation; every calculation done again with the same random start after small and large changes of the pattern; presets; both precisions",
    "thorough": "every sequence of 3 of all operations in long histories, under both FFT engines"}
RULE = "state = (operation window, pattern of both devices); transition = one operation followed by the comparison of both patterns and of both simulated output and image fields; an outcome is a distinct pattern"
ASSUMPTIONS = ["the random start is requested from tf.random.uniform (otherwise shape, type and range are compared)", "phases that are numerically undetermined are carried as unknown"]
SHARDS = 4
SEAM = True
GEO = (dict(N=(4, 3), u=(1.0, 0.5, 8.0)), dict(N=(3, 5), u=(8e-6, 4e-7, 0.2)))
OPS0 = [["reset"], ["gs", "one", "pat", 1], ["gs", "tilt", "asym", 3], ["gs", "hg", "uniform", 0], ["gs", "neg", "hg", 1], ["gs", "tilt", "pat", None],
        ["mraf", "tilt", "pat", 1, "rect", None], ["mraf", "one", "asym", 3, "weights", 0.5], ["mraf", "hg", "pat", 1, "complex", 1.0], ["mraf", "neg", "pat", 0, "all", 0.0], ["mraf", "tilt", "hg", 1, "profile", 0.9],
        ["assign", "real"], ["assign", "other"], ["assign", "int"], ["assign", "complex"], ["assign", "turns"], ["assign", "zero"], ["poke"], ["prop", "tilt"], ["prop", "one"], ["prop", "hg"]]
OPS = [[0] + o for o in OPS0] + [[1] + OPS0[k] for k in (0, 1, 2, 6, 7, 11, 14, 15, 17, 18)]
CORE = [k for k, o in enumerate(OPS) if (o[0], OPS0.index(o[1:])) in [(0, 0), (0, 1), (0, 2), (0, 4), (0, 6), (0, 7), (0, 8), (0, 11), (0, 12), (0, 13), (0, 14), (0, 15), (0, 17), (0, 18), (0, 20), (1, 0), (1, 1), (1, 2), (1, 6), (1, 11), (1, 17), (1, 18)]]


BETWEEN = [["nudge", v] for v in (1e-6, 1e-3, 0.01, 0.1, 0.5, -0.02)] + [["spot", v] for v in (1e-3, 0.02, 1.0)] + [["reset"], ["assign", "zero"], ["gs", "one", "pat", 1]]


def cases(env):
    import tours
    for a, b in itertools.product(range(len(OPS)), repeat=2):
        if env.thorough or a % 2 == 0 or OPS[a][0] == OPS[b][0]:
            yield {"mode": "eager", "engine": 1, "ops": [OPS[a], OPS[b]]}
    for eng in ((1, 0) if env.thorough else (1,)):
        for s in tours.segments(tours.de_bruijn([OPS[k] for k in (range(len(OPS)) if env.thorough else CORE)], 3), 400, 2):
            yield {"mode": "graph", "engine": eng, "ops": s}
    for s in tours.segments(tours.de_bruijn([OPS[k] for k in CORE[::2]], 2), 200, 1):
        yield {"mode": "graph", "engine": 0, "ops": s}
    # the same pattern computed again (same random start) after the panel was changed a little or a lot
    for c in OPS0:
        if c[0] in ("gs", "mraf") and c[3 if c[0] == "mraf" else 3] is not None:
            for x in BETWEEN:
                yield {"mode": "eager", "engine": 1, "code": 2, "ops": [[0] + c, [0] + x, [0] + c, [0, "prop", "tilt"]]}
    yield {"mode": "preset", "engine": 1, "ops": [0]}


def pattern(kind, shape, env):
    import numpy as np
    n = np.arange(shape[0] * shape[1]).reshape(shape)
    if kind == "real": return (0.7 * n ** 1.3).astype(env.real)
    if kind == "other": return (1.9 - 0.45 * n).astype(np.float32 if env.f64 else np.float64)
    if kind == "int": return (n * 7) % 5 - 2
    if kind == "complex": return (0.3 * n - 1.0).astype(complex)
    if kind == "turns": return (2 * np.pi * (n % 4 - 1) + 0.4 * n).astype(env.real)
    return np.zeros(shape)


class Side(object):
    def __init__(self, S, geo):
        import numpy as np, optics
        self.d = optics.Dev(*geo["N"], *geo["u"])
        self.slm = optics.lcos(S, self.d)
        self.sim = S.SLMSimulation(self.slm, padding_x=1, padding_y=0)
        self.phi, self.sure, self.raw = np.zeros((self.d.Ny, self.d.Nx)), np.ones((self.d.Ny, self.d.Nx), bool), True
        self.fields = None


_refs = {}


def reference(env, w, d, beam, target, n, wn, m, code, u):
    import numpy as np, holo, lcosref
    from props.p14 import window
    from props.p15 import targets
    key = (w, beam, target, n, wn, m, code)
    if key not in _refs:
        E, T = holo.beams(d)[beam][1], targets(d)[target][1]
        W = None if wn is None else window(wn, d)[1]
        r = lcosref.iterate(d, E, T, 2 * np.pi * u, n, 2.0 ** -53 if env.f64 else 2.0 ** -24, W, m)
        _refs[key] = r[n] if n < len(r) else (np.zeros_like(T), np.zeros(np.shape(T), bool))
    return _refs[key]


def run_case(env, case):
    import numpy as np, tensorflow as tf, pySLM2 as S
    tf.config.run_functions_eagerly(case["mode"] == "eager")
    S.BACKEND.fft_backend = case["engine"]
    try:
        if case["mode"] == "preset":
            return preset(env)
        history(env, case)
    finally:
        S.BACKEND.fft_backend = S.BACKEND.FFT_BACKEND_NUMPY
        tf.config.run_functions_eagerly(False)


def history(env, case):
    import numpy as np, pySLM2 as S, boot, holo, lcosref
    from props.p14 import window
    from props.p15 import targets
    sides = [Side(S, g) for g in GEO]
    idle = Side(S, GEO[0])
    held, prev = [], []
    compare(env, sides, "new device")
    for k, op in enumerate(case["ops"]):
        env.failed_at = k
        w, name, args = op[0], op[1], op[2:]
        s = sides[w]
        d, what = s.d, "operation %d %s" % (k, op)
        shape = (d.Ny, d.Nx)
        n = d.Nx * d.Ny
        if name == "reset":
            s.slm.reset_slm_state()
            s.phi, s.sure, s.raw = np.zeros(shape), np.ones(shape, bool), True
        elif name in ("gs", "mraf"):
            code = case.get("code", k % 5)
            u = ((np.arange(n) * 7 + 3 * code) % 16 / 16.0).reshape(shape)
            beam, target = holo.beams(d)[args[0]][0](), targets(d)[args[1]][0]()
            kw = {} if name == "gs" and args[2] is None else {"method": name}
            if args[2] is not None: kw["N"] = args[2]
            N = 200 if args[2] is None else args[2]
            wn, m = None, None
            if name == "mraf":
                wn, m = args[3], 0.4 if args[4] is None else args[4]
                kw["signal_window"] = window(wn, d)[0]
                if args[4] is not None: kw["mixing_factor"] = m
            method = kw.pop("method", None)
            got, seam = lcosref.run(env, s.slm, boot.SEAM, u, beam, target, what, method, **kw)
            if N > 5 or not seam:
                s.phi, s.sure = got.astype(float), np.ones(shape, bool)     # shape, type and range only
                env.check(float(np.max(np.abs(got))) <= 2 * np.pi + 1e-5, lambda: what + ": phase outside its range")
            else:
                s.phi, s.sure = reference(env, w, d, args[0], args[1], N, wn, m, code, u)
            s.raw = N == 0
        elif name == "assign":
            a = pattern(args[0], shape, env)
            s.slm.slm_state = a.copy()
            held = (held + [(s.slm.slm_state, a)])[-8:]
            s.phi, s.sure, s.raw = np.real(a).astype(float), np.ones(shape, bool), True
        elif name in ("nudge", "spot"):
            new = np.array(s.slm.slm_state)
            if name == "nudge": new = new + args[0]
            else: new[-1, 1] += args[0]
            s.slm.slm_state = new
            s.phi, s.sure, s.raw = np.real(new).astype(float), np.ones(shape, bool), True
        elif name == "poke":
            cur = np.array(s.slm.slm_state)
            held = [(h, v) for h, v in held if h is not s.slm.slm_state]
            new = cur.copy(); new[0, 1] = 2 - int(3 * np.real(cur[0, 0])) % 3
            s.slm.slm_state[0, 1] = new[0, 1]
            s.phi = np.array(s.phi); s.sure = np.array(s.sure)
            s.phi[0, 1] = float(np.real(new[0, 1])); s.sure[0, 1] = True
        else:
            E = holo.beams(d)[args[0]][1]
            s.sim.propagate_to_image(holo.beams(d)[args[0]][0]())
            out = d.embed(E * np.exp(1j * np.real(s.slm.slm_state).astype(float)), 1, 0)
            s.fields = [d.embed(E, 1, 0), out, d.to_image(out, 1, 0)]
        env.step()
        prev = (prev + [op])[-3:]
        compare(env, sides, what)
        for h, v in held:
            env.check(np.array_equal(h, v), what + ": changed a pattern that was assigned earlier")
        env.state((case["mode"], prev, [np.round(q.phi, 4).tolist() for q in sides]))
        env.outcome_array(np.round(np.exp(1j * s.phi), 3))
        env.count("unknown_phases", int((~s.sure).sum()))
    env.check(not np.any(idle.slm.slm_state) and idle.sim.output_field is None, "a device without operations does not hold the flat pattern")
    env.sample({"ops": case["ops"][:6]})


def compare(env, sides, what):
    import numpy as np, lcosref
    for q, s in enumerate(sides):
        w = "%s, device %d" % (what, q)
        st = s.slm.slm_state
        env.check(isinstance(st, np.ndarray) and st.shape == (s.d.Ny, s.d.Nx), lambda: "%s: pattern is %s of shape %s" % (w, type(st), getattr(st, "shape", None)))
        env.check(not np.iscomplexobj(st) or not np.any(np.imag(st)), lambda: w + ": the pattern is not real")
        lcosref.phase_close(env, np.real(st), s.phi, s.sure, w)
        if s.raw:
            env.close(np.where(s.sure, np.real(st), 0), np.where(s.sure, s.phi, 0), w + " (unwrapped)", scale=10.0)
        got = [s.sim.input_field, s.sim.output_field, s.sim.image_plane_field]
        for g, e, n in zip(got, s.fields or [None] * 3, ("input", "output", "image")):
            env.check((g is None) == (e is None), lambda: "%s: %s field is %s" % (w, n, "None" if g is None else "not None"))
            if g is not None:
                env.close(g, e, "%s: %s field" % (w, n), tol32=6e-5)


def preset(env):
    import numpy as np, pySLM2 as S, boot, lcosref, optics
    slm = S.PLUTO_2(1.064e-6, 0.2)
    env.same(slm.slm_state, np.zeros((1080, 1920)), "new PLUTO_2")
    d = optics.Dev(1920, 1080, slm.pixel_size, 1.064e-6, 0.2)
    T = np.zeros((1080, 1920)); T[300, 1500] = 2.0; T[700:704, 100] = 1.0
    h = np.arange(1920 * 1080, dtype=np.uint64)
    for c in (0x9E3779B97F4A7C15, 0xBF58476D1CE4E5B9):      # integer hash: no lattice structure, so that every image sample is well determined
        h = (h + np.uint64(1)) * np.uint64(c)
        h ^= h >> np.uint64(29)
    u = ((h >> np.uint64(11)) % np.uint64(1024)).astype(float).reshape(1080, 1920) / 1024.0
    s, seam = lcosref.run(env, slm, boot.SEAM, u, 1.0, T, "gs on the PLUTO_2", None, N=1)
    if seam:
        f = np.fft.ifft2(np.exp(2j * np.pi * u))
        env.check(float(np.abs(f[np.fft.ifftshift(T) > 0]).min()) > 0.1 * float(np.sqrt(np.mean(np.abs(f) ** 2))), "harness: undetermined start")
        want = np.fft.fft2(np.fft.ifftshift(T) * np.exp(1j * np.angle(f)))
        lcosref.phase_close(env, s, np.angle(want), np.abs(want) > 0.05 * np.abs(want).max(), "gs on the PLUTO_2")
    env.outcome_array(s[::40, ::40])
    slm.reset_slm_state()
    env.step()
    env.same(slm.slm_state, np.zeros((1080, 1920)), "PLUTO_2 after reset")
    env.state(("preset",))
