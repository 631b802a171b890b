"""P20: switching the FFT engine at any time never changes results."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of histories of engine switches and computations (every first-use order on a freshly imported package, all words up to a length on warm objects) on the real code against engine-independent double-precision references"
BOUNDS = {
    "quick": "11 computations (propagation of a DMD with two paddings and of an LCOS SLM, ideal/simple/windowed/ifta holograms on 2 shapes, gs, mraf): every {default, numpy, TensorFlow} x computation x {numpy, TensorFlow} x {same computation, then a third engine choice and the next computation} on a fresh package with real graph caching; every sequence of 3 of {2 engines, 11 computations} in long histories on warm objects; two presets under both engines; both precisions",
    "thorough": "every sequence of 4 in long histories; every pair of computations on a fresh package"}
RULE = "state = (engine, engine at first use of each computation, operation window); transition = one switch or one computation compared with the reference; an outcome is a distinct result"
ASSUMPTIONS = ["the random start of gs and mraf is requested from tf.random.uniform (otherwise only shape, type and range are compared)"]
SHARDS = 4
SEAM = True
FAST_TRACE = True
COMP = ["propA", "propB", "propL", "ideal", "simple", "windowed", "ifta", "ideal2", "ifta2", "gs", "mraf"]
OPS = ["numpy", "tf"] + COMP


def cases(env):
    import tours
    T = env.thorough
    for i, c in enumerate(COMP):
        for e1 in ("default", "numpy", "tf"):
            for e2 in ("numpy", "tf"):
                for d in (COMP if T else [COMP[(i + 1 + (e1 == "tf")) % len(COMP)]]):
                    yield {"fresh": True, "ops": ([e1] if e1 != "default" else []) + [c, e2, c, d, "tf" if e2 == "numpy" else "numpy", d, c]}
    for s in tours.segments(tours.de_bruijn(OPS, 4 if T else 3), 400, 3 if T else 2):
        yield {"fresh": False, "ops": s}
    for k in range(2):
        yield {"preset": k, "ops": ["numpy", "tf", "numpy"]}


_warm = {}


class World(object):
    """All devices and the reference result of every computation."""

    def __init__(self, env, S):
        import numpy as np, optics, holo, lcosref
        from props import p14, p15
        self.env, self.S = env, S
        eps = 2.0 ** -53 if env.f64 else 2.0 ** -24
        d1, d2, d3 = self.d = (optics.Dev(5, 4), optics.Dev(6, 6), optics.Dev(4, 3))
        self.dmd = optics.dmd(S, d1, 3.3, 0.4)
        self.dmd2 = optics.dmd(S, d2, 3.7, 0.45, True)
        self.slm = optics.lcos(S, d3)
        self.slm2 = optics.lcos(S, d1)
        self.frame = optics.bits(0b10110011100011110101, (4, 5))
        self.phase = 0.7 * np.arange(12).reshape(3, 4) ** 1.3
        self.simA = S.DMDSimulation(self.dmd)
        self.simB = S.DMDSimulation(self.dmd, padding_x=1, padding_y=2)
        self.simL = S.SLMSimulation(self.slm, padding_x=2, padding_y=0)
        self.ref = {}
        E, T = holo.beams(d1)["tilt"][1], holo.targets(d1)["pattern"][1]
        self.E, self.T = E, T
        A, pi, po, eta, _, err = holo.decompose(d1, E, T)
        self.ref["ideal"] = holo.ideal(d1, 3.3, 0.4, A, pi, po, False)
        self.ref["simple"] = (self.ref["ideal"] > .5, np.abs(self.ref["ideal"] - .5) > 1e-3)
        self.eta = eta
        W = holo.windows(d1)["array"][1]
        self.W = W
        A, pi, po, self.etaw, _, _ = holo.decompose(d1, E, T, W)
        self.ref["windowed"] = holo.ideal(d1, 3.3, 0.4, A, pi, po, False)
        self.E2, self.T2 = holo.beams(d2)["tilt"][1], holo.targets(d2)["pattern"][1]
        A, pi, po, self.eta2, _, _ = holo.decompose(d2, self.E2, self.T2)
        self.ref["ideal2"] = holo.ideal(d2, 3.7, 0.45, A, pi, po, True)
        self.w1, self.w2 = p14.window("weights", d1)[1], p14.window("rect", d2)[1]
        self.ref["ifta"] = p14.reference(d1, 3.3, 0.4, False, E, T, self.w1, 3, 1.0, eps)
        self.ref["ifta2"] = p14.reference(d2, 3.7, 0.45, True, self.E2, self.T2, self.w2, 3, 1.0, eps)
        self.g = np.abs(p15.targets(d3)["pat"][1]).astype(float)
        self.Eg = holo.beams(d3)["tilt"][1]
        self.u = (np.arange(12) * 5 % 12 / 12.0).reshape(3, 4)
        self.ref["gs"] = lcosref.iterate(d3, self.Eg, self.g, 2 * np.pi * self.u, 3, eps)
        self.wm = optics.bits(0b00011011100111100011, (4, 5)).astype(float)
        self.gm = np.abs(p15.targets(d1)["pat"][1]).astype(float)
        self.um = (np.arange(20) * 13 % 20 / 20.0).reshape(4, 5)
        self.ref["mraf"] = lcosref.iterate(d1, E, self.gm, 2 * np.pi * self.um, 2, eps, self.wm, 0.4)
        self.engine, self.used = "default", {}

    def do(self, op, what):
        import numpy as np, boot, lcosref
        env, S = self.env, self.S
        B = S.BACKEND
        env.step()
        if op in ("numpy", "tf"):
            B.fft_backend = v = B.FFT_BACKEND_NUMPY if op == "numpy" else B.FFT_BACKEND_TENSORFLOW
            env.check(int(B.fft_backend) == v, lambda: "%s: the engine reads %s" % (what, B.fft_backend))
            self.engine = op
            return
        self.used.setdefault(op, self.engine)
        if op[:4] == "prop":
            sim, E, t, d, pad = {"propA": (self.simA, self.E, self.frame, self.d[0], (0, 0)), "propB": (self.simB, self.E, self.frame, self.d[0], (1, 2)),
                                 "propL": (self.simL, self.Eg, np.exp(1j * self.phase), self.d[2], (2, 0))}[op]
            self.dmd.dmd_state = self.frame.copy()
            self.slm.slm_state = self.phase.astype(env.real)
            sim.propagate_to_image(E)
            want = d.to_image(d.embed(E * t, *pad), *pad)
            env.close(sim.image_plane_field, want, what + ": image-plane field", dtype=env.cplx)
            env.close(sim.input_field, d.embed(E, *pad), what + ": input field", dtype=env.cplx)
        elif op in ("ideal", "simple", "windowed", "ideal2", "ifta", "ifta2"):
            dmd, E, T = (self.dmd2, self.E2, self.T2) if op[-1] == "2" else (self.dmd, self.E, self.T)
            kw = {"windowed": dict(window=self.W), "ifta": dict(signal_window=self.w1, N=3), "ifta2": dict(signal_window=self.w2, N=3)}.get(op, {})
            eta = dmd.calculate_dmd_state(E, T, method={"windowed": "ideal", "ideal2": "ideal", "ifta2": "ifta"}.get(op, op), **kw)
            we = {"windowed": self.etaw}.get(op, self.eta2 if op[-1] == "2" else self.eta)
            env.check(abs(float(eta) - we) <= 1e-4 * we, lambda: "%s: eta %r, expected %r" % (what, eta, we))
            s = dmd.dmd_state
            if op in ("ideal", "ideal2", "windowed"):
                env.close(s, self.ref[op], what + ": hologram", dtype=env.real, scale=1.0, tol32=2e-4)
            else:
                env.check(s.dtype == bool and s.shape == E.shape, lambda: "%s: state is %s %s" % (what, s.dtype, s.shape))
                r = self.ref[op]
                env.check(r is not None, "the reference of %s is undetermined" % op)
                want, sure = r[0], r[1]
                env.check(np.array_equal(s[sure], want[sure]), lambda: "%s: hologram differs in %s" % (what, np.argwhere(sure & (s != want)).tolist()))
                env.count("pixels_compared", int(sure.sum()))
        elif op == "gs":
            s, seam = lcosref.run(env, self.slm, boot.SEAM, self.u, self.Eg, self.g, what, N=3)
            self.phases(op, s, seam, what)
        else:
            s, seam = lcosref.run(env, self.slm2, boot.SEAM, self.um, self.E, self.gm, what, "mraf", N=2, signal_window=self.wm)
            self.phases(op, s, seam, what)

    def phases(self, op, s, seam, what):
        import numpy as np, lcosref
        r = self.ref[op]
        if seam:
            n = 2 if op == "mraf" else 3
            self.env.check(len(r) == n + 1, "the reference of %s is undetermined" % op)
            lcosref.phase_close(self.env, s, r[n][0], r[n][1], what)
            self.env.count("phases_compared", int(r[n][1].sum()))


def run_case(env, case):
    import pySLM2 as S, tensorflow as tf
    if "preset" in case:
        return preset(env, case)
    if case["fresh"]:
        from props import p19
        S = p19.fresh()
        if env.f64: S.BACKEND.dtype = tf.float64
        w = World(env, S)
    else:
        if "w" not in _warm:
            _warm["w"] = World(env, S)
        w = _warm["w"]
        w.do("numpy", "start")
    prev = []
    for k, op in enumerate(case["ops"]):
        env.failed_at = k
        w.do(op, "operation %d (%s, engine %s, first used with %s)" % (k, op, w.engine, w.used.get(op)))
        env.outcome((op, w.engine, w.used.get(op)))
        prev = (prev + [op])[-4:]
        env.state((case["fresh"], prev if not case["fresh"] else case["ops"][:k + 1], w.engine, sorted(w.used.items())))
    env.sample({"ops": case["ops"][:10]})


def preset(env, case):
    import numpy as np, pySLM2 as S
    ny, nx = (1080, 1920) if case["preset"] == 0 else (768, 1024)
    slm = S.PLUTO_2(1.0, 1.0) if case["preset"] == 0 else S.DLP7000(1.0, 1.0, 7.1, 0.6)
    jj, ii = np.meshgrid(np.arange(nx), np.arange(ny))
    E = np.exp(-((jj - 0.4 * nx) ** 2 + (ii - 0.6 * ny) ** 2) / (0.2 * nx) ** 2 + 0.03j * jj - 0.011j * ii)
    if case["preset"] == 0: slm.slm_state = ((jj * ii) % 17 * 0.3).astype(env.real); sim = S.SLMSimulation(slm)
    else: slm.dmd_state = (jj * 3 + ii) % 5 < 2; sim = S.DMDSimulation(slm)
    out = []
    for e in case["ops"]:
        S.BACKEND.fft_backend = S.BACKEND.FFT_BACKEND_NUMPY if e == "numpy" else S.BACKEND.FFT_BACKEND_TENSORFLOW
        sim.propagate_to_image(E)
        env.step(2)
        out.append(sim.image_plane_field)
        env.close(out[-1], out[0], "%s: image-plane field with the %s engine" % (type(slm).__name__, e), dtype=env.cplx, tol32=1e-4)
        env.state(("preset", case["preset"], len(out)))
    S.BACKEND.fft_backend = S.BACKEND.FFT_BACKEND_NUMPY
    env.outcome_array(out[0])
