"""P27: refused requests leave no trace."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of histories valid - refused - (refused) - valid over all operations and all kinds of refused request, on the real code, with every observable compared before and after the refusal and the following result compared with an undisturbed execution"
BOUNDS = {
    "quick": "19 valid operations on two devices (DMD, phase SLM), three simulations, two profiles; 62 refused requests (unknown methods, missing signal windows, beams / targets / windows / amplitude and phase maps / frames of wrong shape or kind, gray frames to pack, blocking without a result, invalid radius, wrong devices and paddings, invalid Zernike indices, unsupported parameter and configuration values): every (valid, refused) pair, followed by 2 of the 19 valid operations per engine in turn; every ordered pair of refused requests; every word of 1 to 4 of 8 configuration operations with at least one refused value, on backend objects of their own; both precisions, both FFT engines",
    "thorough": "every (valid, refused, valid) triple, every (refused, refused, valid) triple"}
RULE = "state = (operation before, refused requests, operation after); transition = one request followed by the comparison of all frames, holograms, fields, parameters and configuration; an outcome is a distinct (refused request, kind of exception, operation before)"
ASSUMPTIONS = ["shapes are refused only where they cannot be broadcast to the device", "which exception is raised is only decided where it is documented: ValueError for unknown methods and Zernike indices, TypeError for wrong device classes, padding types, gray frames and blocking without a result"]
SHARDS = 4
SEAM = True
FAST_TRACE = True
VALID = ["on", "off", "simple", "random", "patch", "ideal", "window", "ifta", "assign", "gs", "mraf", "reset", "slmassign", "propD", "propB", "propL", "block", "clear", "param"]
# name: documented exception or None (any)
REFUSED = {"grating:bogus": "ValueError", "grating:none": "ValueError", "grating:amp": None, "grating:pin": None, "grating:pout": None, "grating:kind": None, "grating:ifta": None, "grating:steep": None,
           "patch:bogus": "ValueError", "patch:amp": None, "patch:pin": None, "patch:pout": None, "patch:center": None, "patch:kind": None,
           "holo:bogus": "ValueError", "holo:E": None, "holo:T": None, "holo:W": None, "holo:E3": None, "holo:nowin": None, "holo:sigwin": None, "holo:iftaE": None, "holo:N": None, "holo:s": None, "holo:steep": None, "holo:kind": None, "holo:Tkind": None, "holo:Wkind": None,
           "conv:complex": None, "conv:kind": None, "conv:str": None,
           "gs:bogus": "ValueError", "gs:E": None, "gs:T": None, "gs:N": None, "gs:kind": None, "gs:Tkind": None, "mraf:nowin": None, "mraf:win": None, "mraf:T": None, "mraf:mix": None,
           "prop:E": None, "prop:E2": None, "prop:kind": None, "propL:E": None, "propB:E": None, "prop:frame": None, "propL:frame": None,
           "block:new": "TypeError", "block:kind": None, "block:cleared": "TypeError", "pack:gray": "TypeError", "pack:int": "TypeError",
           "sim:lcos": "TypeError", "sim:none": "TypeError", "sim:padx": "TypeError", "sim:pady": "TypeError", "zernike": "ValueError", "param:str": None, "param:shape": None, "dtype": None, "engine": None}


CONFIG = ["32", "64", "bad:int32", "bad:float16", "bad:complex64", "bad:bool", "bad:int", "read"]


def cases(env):
    R = sorted(REFUSED)
    yield {"engine": 1, "config": True, "ops": [list(w) for n in range(1, 6 if env.thorough else 5) for w in itertools.product(CONFIG, repeat=n) if any(o[:3] == "bad" for o in w)]}
    for k, r in enumerate(R):
        for eng in (0, 1):
            ops = []
            for q, v in enumerate(VALID):
                after = VALID if env.thorough else [VALID[(4 * q + 5 * k + n + eng) % len(VALID)] for n in range(2)]
                ops += [[v, [r], w] for w in after]
            for q, r2 in enumerate(R):
                if env.thorough or q % 2 == eng:
                    ops += [[VALID[(q + 3 * k) % len(VALID)], [r, r2], w] for w in (VALID if env.thorough else [VALID[(q + k) % len(VALID)]])]
            for c in range(0, len(ops), 90):
                yield {"engine": eng, "ops": ops[c:c + 90]}


class World(object):
    def __init__(self, env, S):
        import numpy as np, optics, holo
        from props import p14, p15
        self.env, self.S, self.np = env, S, np
        d = self.d = optics.Dev(5, 4)
        self.dmd = optics.dmd(S, d, 3.3, 0.4)
        self.slm = optics.lcos(S, d)
        self.simD, self.simB, self.simL = S.DMDSimulation(self.dmd), S.DMDSimulation(self.dmd, padding_x=1, padding_y=2), S.SLMSimulation(self.slm, padding_x=0, padding_y=1)
        self.hg, self.const = S.HermiteGaussian(0.1, 0.2, 1.5, 2.0, n=1, m=0), S.ConstantProfile(0.5)
        self.E, self.E2 = holo.beams(d)["tilt"][1], holo.beams(d)["neg"][1]
        self.T, self.W, self.sig = holo.targets(d)["pattern"][1], holo.windows(d)["array"][1], p14.window("weights", d)[1]
        self.tgt = np.abs(p15.targets(d)["pat"][1]).astype(float)
        self.u = (np.arange(20) * 13 % 20 / 20.0).reshape(4, 5)
        self.frame = optics.bits(0b10110011100011110101, (4, 5))
        self.phase = 0.7 * np.arange(20).reshape(4, 5) ** 1.3
        self.bad = np.ones((5, 4)) * 0.5                    # transposed: cannot be broadcast
        self.bad2 = np.ones((4, 6)) * (0.5 + 0.5j)
        self.bad3 = np.ones((2, 4, 5))

    def base(self):
        self.dmd.negative_order = False
        self.dmd.dmd_state, self.slm.slm_state = self.frame.copy(), self.phase.astype(self.env.real)
        self.simD.propagate_to_image(self.E); self.simB.propagate_to_image(self.E2); self.simL.propagate_to_image(self.E)
        self.hg.x0, self.hg.a, self.const.c = 0.1, 1.5, 0.5

    def observe(self):
        np = self.np
        out = [("dmd_state", self.dmd.dmd_state), ("slm_state", self.slm.slm_state)]
        for n, s in (("simulation", self.simD), ("padded simulation", self.simB), ("SLM simulation", self.simL)):
            out += [(n + "." + f, getattr(s, f)) for f in ("input_field", "output_field", "image_plane_field")]
            out.append((n + " size", [s.Nx, s.Ny, s.padding_x, s.padding_y]))
        x, y = self.d.fgrid()
        out += [("profile parameters", [float(v) for v in (self.hg.x0, self.hg.y0, self.hg.a, self.hg.w, self.const.c)]), ("profile values", self.hg(x, y)), ("constant values", self.const(x, y))]
        out += [("grid", self.dmd.fourier_plane_grid[0]), ("image grid", self.slm.image_plane_grid[1]), ("order", [float(self.dmd.theta)] + [float(v) for v in self.dmd.first_order_origin] + [bool(self.dmd.negative_order)])]
        out += [("precision", str(self.S.BACKEND.dtype)), ("engine", int(self.S.BACKEND.fft_backend))]
        return [(n, None if v is None else np.array(v)) for n, v in out]

    def valid(self, op):
        d, s = self.dmd, self.slm
        if op == "on": d.set_dmd_state_on()
        elif op == "off": d.set_dmd_state_off()
        elif op in ("simple", "random"): d.set_dmd_grating_state(0.8, 0.3 * self.u, 0.5, method=op)
        elif op == "patch": d.circular_patch(1.5, 2, 0.9, 0.4, self.u, 3.5, method="simple")
        elif op == "ideal": d.calculate_dmd_state(self.E, self.T, method="ideal")
        elif op == "window": d.calculate_dmd_state(self.E, self.T, method="simple", window=self.W)
        elif op == "ifta": d.calculate_dmd_state(self.E, self.T, method="ifta", N=2, signal_window=self.sig)
        elif op == "assign": d.dmd_state = (0.25 + 0.5 * self.frame).astype(self.env.real)
        elif op == "gs": s.calculate_hologram(self.E, self.tgt, N=2)
        elif op == "mraf": s.calculate_hologram(self.E, self.tgt, method="mraf", N=1, signal_window=(self.tgt > 0.5).astype(float))
        elif op == "reset": s.reset_slm_state()
        elif op == "slmassign": s.slm_state = 2.0 - 0.5 * self.phase
        elif op == "propD": self.simD.propagate_to_image(self.E2)
        elif op == "propB": self.simB.propagate_to_image(self.hg)
        elif op == "propL": self.simL.propagate_to_image(0.5 - 2j)
        elif op == "block": (self.simD.block_zeroth_order if self.simD.image_plane_field is not None else self.simB.block_zeroth_order)()
        elif op == "clear": self.simB.clear()
        else: self.hg.x0, self.const.c = 0.7, 2.5

    def refused(self, op):
        S, np, d, s = self.S, self.np, self.dmd, self.slm
        k, _, a = op.partition(":")
        junk = {"a": 1}
        if k == "grating":
            if a == "bogus": return d.set_dmd_grating_state(method="bogus")
            if a == "none": return d.set_dmd_grating_state(method="Simple")
            if a == "ifta": return d.set_dmd_grating_state(method="ifta")
            if a == "steep": return d.set_dmd_grating_state(method="random", r="x")
            if a == "kind": return d.set_dmd_grating_state(amp=junk, method="simple")
            return d.set_dmd_grating_state(**{{"amp": "amp", "pin": "phase_in", "pout": "phase_out"}[a]: self.bad, "method": "ideal"})
        if k == "patch":
            kw = dict(i=1, j=2, amp=0.5, phase_in=0.1, phase_out=0.2, d=3, method="simple")
            kw.update({"bogus": {"method": "gs"}, "amp": {"amp": self.bad}, "pin": {"phase_in": self.bad}, "pout": {"phase_out": self.bad}, "center": {"i": "x"}, "kind": {"d": None}}[a])
            return d.circular_patch(**kw)
        if k == "holo":
            E, T, kw = self.E, self.T, dict(method="simple")
            if a == "bogus": kw = dict(method="mraf")
            if a == "E": E = self.bad2
            if a == "E3": E = np.ones((3, 5))
            if a == "T": T = self.bad
            if a == "W": kw = dict(method="ideal", window=self.bad)
            if a == "nowin": kw = dict(method="ifta", N=1)
            if a == "sigwin": kw = dict(method="ifta", N=1, signal_window=self.bad2)
            if a == "iftaE": E, kw = self.bad2, dict(method="ifta", N=1, signal_window=self.sig)
            if a == "N": kw = dict(method="ifta", N="many", signal_window=self.sig)
            if a == "s": kw = dict(method="ifta", s="big", N=1, signal_window=self.sig)
            if a == "steep": kw = dict(method="random", r="x")
            if a == "kind": E = None
            if a == "Tkind": T = junk
            if a == "Wkind": kw = dict(method="ideal", window=junk)
            return d.calculate_dmd_state(E, T, **kw)
        if k == "conv":
            if a == "complex": return d.profile_to_tensor(1 + 2j)
            return d.profile_to_tensor(junk if a == "kind" else "one")
        if k == "gs":
            E, T, kw = self.E, self.tgt, dict(N=1)
            if a == "bogus": kw = dict(method="simple")
            if a == "E": E = self.bad2
            if a == "T": T = self.bad
            if a == "N": kw = dict(N="many")
            if a == "kind": E = None
            if a == "Tkind": T = junk
            return s.calculate_hologram(E, T, **kw)
        if k == "mraf":
            kw = dict(method="mraf", N=1, signal_window=(self.tgt > 0.5).astype(float))
            if a == "nowin": kw.pop("signal_window")
            if a == "win": kw["signal_window"] = self.bad
            if a == "mix": kw["mixing_factor"] = "half"
            return s.calculate_hologram(self.E, self.bad if a == "T" else self.tgt, **kw)
        if op == "prop:frame" or op == "propL:frame":       # the device holds a frame of another device
            dev, name, sim = (d, "dmd_state", self.simD) if k == "prop" else (s, "slm_state", self.simL)
            keep = getattr(dev, name)
            setattr(dev, name, self.bad > 0 if k == "prop" else self.bad)
            try: return sim.propagate_to_image(self.E2)
            finally: setattr(dev, name, keep)
        if k == "prop": return self.simD.propagate_to_image({"E": self.bad, "E2": self.bad2, "kind": junk}[a])
        if k == "propL": return self.simL.propagate_to_image(self.bad2)
        if k == "propB": return self.simB.propagate_to_image(self.bad2)
        if k == "block":
            if a == "new": return S.DMDSimulation(d).block_zeroth_order()
            if a == "cleared":
                x = S.DMDSimulation(d, padding_x=1); x.propagate_to_image(1.0); x.clear()
                return x.block_zeroth_order(0.5)
            sim = self.simD if self.simD.image_plane_field is not None else self.simB
            return sim.block_zeroth_order("wide")
        if k == "pack":
            keep = d.dmd_state
            d.dmd_state = np.full((4, 5), 0.5) if a == "gray" else np.ones((4, 5), int)
            try: return d.pack_dmd_state()
            finally: d.dmd_state = keep
        if k == "sim":
            return {"lcos": lambda: S.DMDSimulation(s), "none": lambda: S.SLMSimulation(None), "padx": lambda: S.SLMSimulation(s, padding_x=1.0), "pady": lambda: S.DMDSimulation(d, padding_y="2")}[a]()
        if k == "zernike": return S.Zernike(1.0, 2.0, n=3, m=2)
        if k == "param":
            if a == "str": self.hg.x0 = "left"
            else: self.hg.a = [1.0, 2.0]
            return
        if k == "dtype":
            S.BACKEND.dtype = S.BACKEND.TENSOR_32BITS if self.env.f64 else S.BACKEND.TENSOR_64BITS
            return
        if k == "engine":
            S.BACKEND.fft_backend = "numpy"
            return
        raise KeyError(op)


_warm = {}


def scripted(w, f, *a):
    import boot, numpy as np
    boot.SEAM.script = lambda shape: w.u if int(np.prod(shape)) == 20 else np.resize(w.u, shape)
    try:
        return f(*a)
    finally:
        boot.SEAM.script = None


def config(env, case):
    """Refused configuration values before and after the first computation, on backend objects of their own."""
    import numpy as np, tensorflow as tf, pySLM2 as S
    import pySLM2._backend as B
    try:
        type(S.BACKEND)()
    except Exception:       # not constructible on its own any more: P19 covers the process-wide one
        env.count("config_skipped", 1)
        return
    value = {"32": tf.float32, "64": tf.float64, "bad:int32": tf.int32, "bad:float16": tf.float16, "bad:complex64": tf.complex64, "bad:bool": tf.bool, "bad:int": 7}
    for k, w in enumerate(case["ops"]):
        env.failed_at = k
        b = type(S.BACKEND)()
        want, fixed = "float32", False
        for q, o in enumerate(w):
            what = "backend after %s: %s" % (w[:q], o)
            try:
                if o == "read": b.dtype; fixed = True
                else: b.dtype = value[o]
            except Exception as e:
                env.check(isinstance(e, AssertionError) if fixed else isinstance(e, ValueError) and o[:3] == "bad" or (o == "bad:int" and not isinstance(e, AssertionError)), lambda: "%s raised %r" % (what, e))
            else:
                env.check(o == "read" or (not fixed and o[:3] != "bad"), lambda: what + " was accepted")
                if o in ("32", "64"): want = "float" + o
            env.step()
        got = [b.dtype.name, b.dtype_complex.name, b.dtype_int.name]
        env.check(got == [want, "complex64" if want == "float32" else "complex128", "int32" if want == "float32" else "int64"], lambda: "backend after %s: %s, expected %s" % (w, got, want))
        env.state(("config", w)); env.outcome(("config", got, fixed))


def run_case(env, case):
    import numpy as np, pySLM2 as S
    if case.get("config"):
        return config(env, case)
    S.BACKEND.fft_backend = case["engine"]
    try:
        if "w" not in _warm: _warm["w"] = World(env, S)
        w = _warm["w"]
        for k, (v, refused, after) in enumerate(case["ops"]):
            env.failed_at = k
            key = (case["engine"], v, after)
            if key not in _warm:
                w.base(); scripted(w, w.valid, v); a = w.observe(); scripted(w, w.valid, after)
                _warm[key] = a, w.observe()
            want0, want1 = _warm[key]
            w.base()
            scripted(w, w.valid, v)
            env.step()
            before = w.observe()
            compare(env, before, want0, "%s, without a refused request" % v, exact=False)
            for r in refused:
                what = "%s, then refused %s" % (v, r)
                try:
                    got = scripted(w, w.refused, r)
                except Exception as e:
                    kind = type(e).__mro__
                else:
                    env.check(False, lambda: "%s: accepted (returned %s)" % (what, repr(got)[:80]))
                env.step()
                env.check(REFUSED[r] is None or REFUSED[r] in [c.__name__ for c in kind], lambda: "%s: raised %s, documented is %s" % (what, kind[0].__name__, REFUSED[r]))
                compare(env, w.observe(), before, what, exact=True)
                env.outcome((r, v, kind[0].__name__))
            scripted(w, w.valid, after)
            env.step()
            compare(env, w.observe(), want1, "%s, refused %s, then %s" % (v, refused, after), exact=False)
            env.state((case["engine"], v, refused, after))
        env.sample({"case": dict(case, ops=case["ops"][:3])})
    finally:
        S.BACKEND.fft_backend = S.BACKEND.FFT_BACKEND_NUMPY


def compare(env, got, want, what, exact):
    import numpy as np
    for (n, g), (_, e) in zip(got, want):
        w = "%s: %s" % (what, n)
        env.check((g is None) == (e is None), lambda: w + (" is None" if g is None else " is not None any more"))
        if g is None:
            continue
        env.check(g.dtype == e.dtype and g.shape == e.shape, lambda: "%s is %s %s, expected %s %s" % (w, g.dtype, g.shape, e.dtype, e.shape))
        if exact or g.dtype.kind not in "fc": env.same(g, e, w)
        else: env.close(g, e, w, scale=max(1.0, float(np.max(np.abs(e))) if e.size else 1.0))
