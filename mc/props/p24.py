"""P24: computations never change their inputs and never share memory with them."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of aliasing histories: every public operation, then an overwrite of every one of its input and output arrays in turn, then every public operation, on the real code, with all held arrays compared with their values and all results with those of an undisturbed execution"
BOUNDS = {
    "quick": "35 operations (evaluation of 11 profiles, conversions, grids, gratings, patch, all-on, all-off, holograms by every method, propagation and blocking on two simulations, analysis, packing, number image): every (operation, overwritten array, later operation) in graph mode on warm objects, and every (operation, overwritten array, same operation / grids) in eager mode on fresh objects, in 5 array variants (matching precision, other precision, Fortran order, read-only, strided view); every pair of quantities read from a simulation, its device and profiles, the first overwritten before the second is read; both precisions",
    "thorough": "every (operation, overwritten array, later operation) in all variants and both FFT engines"}
RULE = "state = (operation, variant, overwritten array, later operation); transition = one operation or overwrite followed by the comparison of all held arrays; an outcome is a distinct (operation, overwritten array)"
ASSUMPTIONS = ["overwriting the current frame of a device (dmd_state, slm_state) is a change of the device, not of a result"]
SHARDS = 4
SEAM = True
FAST_TRACE = True
PROFILES = ["hg", "lg", "sg", "zernike", "const", "rect", "circ", "ident", "sum", "shift", "asc"]
OPS = ["eval:" + p for p in PROFILES] + ["conv:real", "conv:complex", "conv:profile", "grids", "padgrids", "grating:ideal", "grating:simple", "grating:random", "patch:ideal", "patch:simple", "on", "off",
       "holo:ideal", "holo:simple", "holo:random", "holo:window", "holo:ifta", "gs", "mraf", "propD", "propB", "propL", "zdec", "zrem", "pack"]
VARIANTS = ["match", "other", "F", "readonly", "strided"]
NIN = {"eval": 2, "conv": 1, "grating": 3, "patch": 2, "gs": 2, "mraf": 3, "propD": 2, "propB": 2, "propL": 2, "zdec": 1, "zrem": 1, "pack": 1, "on": 1, "off": 1, "grids": 0, "padgrids": 0}
NOUT = {"eval": 1, "grids": 4, "padgrids": 4, "grating": 1, "patch": 1, "holo": 1, "gs": 1, "mraf": 1, "propD": 6, "propB": 6, "propL": 6, "zdec": 1, "zrem": 1, "pack": 0, "on": 1, "off": 1, "conv": 0}


def targets(op):
    k = op.split(":")[0]
    nin = NIN.get(k, 3 if op in ("holo:window", "holo:ifta") else 2)
    if op == "conv:profile": nin = 0
    return [["none", 0]] + [["in", i] for i in range(nin)] + [["out", j] for j in range(NOUT[k])]


def cases(env):
    T = env.thorough
    yield {"kind": "reread", "mode": "graph", "engine": 1, "ops": [0]}
    for op in OPS:
        for t in targets(op):
            for eng in ((0, 1) if T else (1,)):
                for v in (VARIANTS if T else ["match"]):
                    yield {"mode": "graph", "engine": eng, "ops": [[op, v, t, o] for o in OPS]}
    for op in OPS:
        for v in VARIANTS:
            yield {"mode": "eager", "engine": 1, "ops": [[op, v, t, o] for t in targets(op) for o in (op, "grids", "padgrids")]}
            yield {"mode": "graph", "engine": 0, "ops": [[op, v, t, op] for t in targets(op)]}


SIMS = ["simD", "simB", "simL"]
READS = ["input_field", "output_field", "image_plane_field", "input_intensity", "output_intensity", "image_plane_intensity", "image_plane_padded_grid", "fourier_plane_padded_grid"]


def rereading(env, case):
    """Every word of two quantities of a simulation and its device, read, overwritten and read again, without any operation in between."""
    import numpy as np, pySLM2 as S
    w = World(env, S)
    for name in SIMS:
        E, X = w.arr("E", "match"), w.arr("phase" if name == "simL" else "gray", "match")
        sim = getattr(w, name)
        if name == "simL": w.slm.slm_state = X
        else: w.dmd.dmd_state = X
        sim.propagate_to_image(E)
        if name == "simB": sim.block_zeroth_order()
        dev = w.slm if name == "simL" else w.dmd
        read = dict((r, lambda r=r: getattr(sim, r)) for r in READS)
        read.update((r, lambda r=r: getattr(dev, r)) for r in ("fourier_plane_grid", "image_plane_grid"))
        read.update((p, lambda p=p: w.profiles[p](w.base["x"], w.base["y"])) for p in ("hg", "ident", "asc", "const"))
        if name != "simL": read["first_order_origin"] = lambda: dev.first_order_origin
        flat = lambda v: [np.asarray(q) for q in (v if isinstance(v, (tuple, list)) else [v])]
        want = {r: [q.copy() for q in flat(f())] for r, f in read.items()}
        powers = lambda: [sim.get_input_power(), sim.get_output_power(), sim.get_image_plane_power()]
        p0 = powers()
        for a, b in itertools.product(read, repeat=2):
            for twice in (False, True):
                got = flat(read[a]())
                if twice: got = flat(read[a]()) + got
                env.step()
                for q in got:
                    if q.ndim and q.flags.writeable: q[...] = -7.5 - q
                other = flat(read[b]())
                env.check(len(other) == len(want[b]) and all(np.array_equal(o, v) for o, v in zip(other, want[b])), lambda: "%s: %s reads differently after the %s that was read before was overwritten" % (name, b, a))
            env.check(powers() == p0, lambda: "%s: powers differ after the %s that was read was overwritten" % (name, a))
            env.state(("read", name, a, b)); env.outcome((name, a, b))


_warm = {}


class World(object):
    def __init__(self, env, S):
        import numpy as np, tensorflow as tf, optics, holo
        from props import p14, p15
        self.env, self.S = env, S
        d = self.d = optics.Dev(5, 4)
        self.dmd = optics.dmd(S, d, 3.3, 0.4)
        self.slm = optics.lcos(S, d)
        self.simD = S.DMDSimulation(self.dmd)
        self.simB = S.DMDSimulation(self.dmd, padding_x=1, padding_y=2)
        self.simL = S.SLMSimulation(self.slm, padding_x=0, padding_y=1)

        class Ident(S.FunctionProfile):
            @tf.function
            def _func(self, x, y):
                return x
        hg = S.HermiteGaussian(0.1, 0.2, 1.5, 2.0, n=1, m=0)
        ident = Ident()
        self.profiles = {"hg": hg, "lg": S.LaguerreGaussian(0.1, 0.2, 1.0, 2.0, l=1, p=1), "sg": S.SuperGaussian(0.1, 0.2, 1.0, 2.0, 2), "zernike": S.Zernike(1.0, 3.0, 2, 0),
                         "const": S.ConstantProfile(2.5), "rect": S.RectangularWindowRectangle(0, 0, 2.5, 3.5), "circ": S.RectangularWindowCircular(0, 0, 2.2), "ident": ident,
                         "sum": hg + ident, "shift": ident.shift(0.5, 0.25), "asc": ident.as_complex_profile()}
        self.base = {"x": d.fgrid()[0] * 0.5, "y": d.fgrid()[1] * 0.25, "E": 1.25 * holo.beams(d)["tilt"][1], "T": holo.targets(d)["pattern"][1], "W": 1.7 * holo.windows(d)["array"][1],
                     "sig": p14.window("weights", d)[1], "amp": 0.2 + 0.03 * np.arange(20).reshape(4, 5), "pin": 0.9 * np.arange(20).reshape(4, 5) % 2.7, "pout": 1.3 * np.arange(20).reshape(4, 5) % 3.1,
                     "tgt": np.abs(p15.targets(d)["pat"][1]).astype(float), "win": optics.bits(0b00011011100111100011, (4, 5)).astype(float),
                     "frame": optics.bits(0b10110011100011110101, (4, 5)), "gray": 0.05 * np.arange(20).reshape(4, 5), "phase": 0.7 * np.arange(20).reshape(4, 5) ** 1.3,
                     "map": 0.3 * np.cos(np.arange(20)).reshape(4, 5)}
        self.u = (np.arange(20) * 13 % 20 / 20.0).reshape(4, 5)

    def arr(self, name, variant):
        """A fresh array of the variant."""
        import numpy as np
        a = self.base[name]
        if a.dtype != bool:
            six = self.env.f64 != (variant == "other")
            a = a.astype((np.complex128 if six else np.complex64) if a.dtype.kind == "c" else (np.float64 if six else np.float32))
        a = np.array(a)
        if variant == "F": a = np.asfortranarray(a)
        elif variant == "strided":
            big = np.zeros((8, 10), a.dtype); big[::2, ::2] = a; a = big[::2, ::2]
        elif variant == "readonly": a.setflags(write=False)
        return a

    def run(self, op, v):
        """(input arrays, output arrays) of a full execution."""
        import numpy as np, boot
        S, k, arg = self.S, op.split(":")[0], op.split(":")[-1]
        A = lambda *names: [self.arr(n, v) for n in names]
        boot.SEAM.script = lambda shape: self.u if int(np.prod(shape)) == 20 else np.resize(self.u, shape)
        try:
            if k == "eval":
                i = A("x", "y"); return i, [self.profiles[arg](*i)]
            if k == "conv":
                if arg == "profile":
                    return [], [Held(self.dmd.profile_to_tensor(self.profiles["hg"])), Held(self.dmd.profile_to_tensor(self.profiles["ident"])), Held(self.dmd.profile_to_tensor(self.profiles["ident"], at_fourier_plane=False, complex=True))]
                i = A("amp") if arg == "real" else A("E")
                return i, [Held(self.dmd.profile_to_tensor(i[0], complex=arg != "real"))]
            if k == "grids": return [], list(self.dmd.fourier_plane_grid) + list(self.slm.image_plane_grid)
            if k == "padgrids": return [], list(self.simB.fourier_plane_padded_grid) + list(self.simB.image_plane_padded_grid)
            if k == "grating":
                i = A("amp", "pin", "pout"); self.dmd.set_dmd_grating_state(*i, method=arg); return i, [self.dmd.dmd_state]
            if k in ("on", "off"):
                i = A("gray"); self.dmd.dmd_state = i[0]
                (self.dmd.set_dmd_state_on if k == "on" else self.dmd.set_dmd_state_off)(); return i, [self.dmd.dmd_state]
            if k == "patch":
                i = A("pin", "frame" if arg == "simple" else "gray"); self.dmd.dmd_state = i[1]
                self.dmd.circular_patch(1.5, 2, 0.7, i[0], 0.5, 3.5, method=arg); return i, [self.dmd.dmd_state]
            if k == "holo":
                i = A("E", "T") + (A("W") if arg == "window" else A("sig") if arg == "ifta" else [])
                kw = {"window": dict(window=i[-1]), "ifta": dict(signal_window=i[-1], N=3)}.get(arg, {})
                eta = self.dmd.calculate_dmd_state(i[0], i[1], method="ideal" if arg == "window" else arg, **kw)
                return i, [self.dmd.dmd_state, Held(eta)]
            if k in ("gs", "mraf"):
                i = A("E", "tgt") + (A("win") if k == "mraf" else [])
                self.slm.calculate_hologram(i[0], i[1], method=k, N=2, **({"signal_window": i[2]} if k == "mraf" else {}))
                return i, [self.slm.slm_state]
            if k[:4] == "prop":
                sim = {"D": self.simD, "B": self.simB, "L": self.simL}[k[4]]
                i = A("E", "phase" if k == "propL" else "gray" if k == "propD" else "frame")
                if k == "propL": self.slm.slm_state = i[1]
                else: self.dmd.dmd_state = i[1]
                sim.propagate_to_image(i[0])
                out = [sim.input_field, sim.output_field, sim.image_plane_field, sim.input_intensity, sim.output_intensity, sim.image_plane_intensity]
                if k == "propB":
                    sim.block_zeroth_order(); out += [Held(sim.image_plane_field)]
                return i, out + [Held([sim.get_input_power(), sim.get_output_power(), sim.get_image_plane_power()])]
            if k == "zdec":
                i = A("map"); c, rec = S.zernike_decomposition(i[0], 2.2, 4, reconstruct=True); return i, [rec, Held(c)]
            if k == "zrem":
                i = A("map"); return i, [S.remove_trivial_phase(i[0], 2.2, remove_defocus=True)]
            i = A("frame"); self.dmd.dmd_state = i[0]
            return i, [Held(np.frombuffer(self.dmd.pack_dmd_state(), np.uint8))]
        finally:
            boot.SEAM.script = None


class Held(object):
    """A result that is kept, but not overwritten (tensors and numbers)."""
    def __init__(self, v): self.v = v


def value(x):
    import numpy as np
    return np.array(x.v if isinstance(x, Held) else x, copy=True)


def eager(op, mode):
    import tensorflow as tf
    tf.config.run_functions_eagerly(mode == "eager" or op in ("zdec", "zrem"))


def baseline(env, S, op, v, mode):
    key = ("base", op, v, mode, int(S.BACKEND.fft_backend))
    if key not in _warm:
        eager(op, mode)
        _warm[key] = [value(o) for o in World(env, S).run(op, v)[1]]
    return _warm[key]


def run_case(env, case):
    import numpy as np, pySLM2 as S, tensorflow as tf
    S.BACKEND.fft_backend = case["engine"]
    try:
        if case.get("kind"): return rereading(env, case)
        for k, (op, v, t, later) in enumerate(case["ops"]):
            env.failed_at = k
            mode = case["mode"]
            want, want2 = baseline(env, S, op, v, mode), baseline(env, S, later, "match", mode)
            if mode == "graph":
                if "w" not in _warm: _warm["w"] = World(env, S)
                w = _warm["w"]
            else:
                eager(op, mode)
                w = World(env, S)
            what = "%s (%s arrays)" % (op, v)
            eager(op, mode)
            ins, outs = w.run(op, v)
            env.step()
            fresh = {"eval": ["x", "y"]}.get(op.split(":")[0])
            held = [(a, "input %d of %s" % (i, what)) for i, a in enumerate(ins)] + [(o, "result %d of %s" % (j, what)) for j, o in enumerate(outs)]
            names = inputs_of(op)
            for i, (a, n) in enumerate(zip(ins, names)):
                env.check(np.array_equal(a, w.arr(n, v)), lambda: "%s: changed its input %s" % (what, n))
            compare(env, outs, want, what)
            if t[0] == "in" and v == "readonly":
                t = ["none", 0]
            victim = None
            if t[0] != "none":
                victim = ins[t[1]] if t[0] == "in" else outs[t[1]]
                if not isinstance(victim, np.ndarray) or victim.ndim == 0 or not victim.flags.writeable:
                    victim = None
            if victim is not None:
                snap = [value(h) for h, _ in held]
                victim[...] = ~victim if victim.dtype == bool else -7.5 - victim
                what += ", %s %d overwritten" % ("input" if t[0] == "in" else "result", t[1])
                for (h, n), s in zip(held, snap):
                    env.check(h is victim or np.array_equal(value(h), s), lambda: "%s: this changed %s" % (what, n))
            snap = [value(h) for h, _ in held]
            eager(later, mode)
            ins2, outs2 = w.run(later, "match")
            env.step()
            compare(env, outs2, want2, "%s after %s" % (later, what))
            for (h, n), s in zip(held, snap):
                env.check(np.array_equal(value(h), s), lambda: "%s after %s: this changed %s" % (later, what, n))
            env.state((mode, case["engine"], op, v, t, later)); env.outcome((op, v, t, later))
    finally:
        S.BACKEND.fft_backend = S.BACKEND.FFT_BACKEND_NUMPY
        tf.config.run_functions_eagerly(False)
    env.sample({"case": dict(case, ops=case["ops"][:3])})


def inputs_of(op):
    k, arg = op.split(":")[0], op.split(":")[-1]
    return {"eval": ["x", "y"], "conv": [] if arg == "profile" else ["amp"] if arg == "real" else ["E"], "grids": [], "padgrids": [], "grating": ["amp", "pin", "pout"], "patch": ["pin", "frame" if arg == "simple" else "gray"],
            "holo": ["E", "T"] + {"window": ["W"], "ifta": ["sig"]}.get(arg, []), "gs": ["E", "tgt"], "mraf": ["E", "tgt", "win"], "propD": ["E", "gray"], "propB": ["E", "frame"],
            "propL": ["E", "phase"], "zdec": ["map"], "zrem": ["map"], "pack": ["frame"], "on": ["gray"], "off": ["gray"]}[k]


def compare(env, outs, want, what):
    import numpy as np
    for j, (o, b) in enumerate(zip(outs, want)):
        o = value(o)
        if b.dtype.kind in "fc": env.close(o, b, "%s: result %d" % (what, j))
        else: env.same(o, b, "%s: result %d" % (what, j))
