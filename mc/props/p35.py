"""P35: subclasses take part like the classes they extend."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of user-defined subclasses (profiles, devices, simulations, controllers) x words of operations on the real base classes, compared with a numpy reference (profiles, own transmissions), with the built-in twin class and with a reference life cycle (controllers)"
BOUNDS = {
    "quick": "12 profile classes (own real and complex formula, with a parameter, traced and untraced, combination of other profiles, built-in ones with fixed or overridden behaviour, two of the same name and without attributes) x every word of length 0..2 over 16 operations (arithmetic with numbers and with a built-in profile on either side, transforms), traced for length 0..1; conversions of two classes on one device; each class as beam, target, window, amplitude, phase and argument of 14 computations; 5 device classes (fixed geometry, two levels of inheritance, own attributes, attenuating, own transmission) x every word of length 3 over 9 operations against the twin; 3 simulation classes; every word of length 4 over 6 operations on 3 controller classes; both precisions",
    "thorough": "profile words of length 3, conversions of three classes, device words of length 4, controller words of length 5"}
RULE = "state = (class, operation word); transition = one operation compared with the reference or the twin; an outcome is a distinct result"
ASSUMPTIONS = ["a class extends FunctionProfile by _func, SLM by _state_tensor and the controller base by its public methods, as the built-in classes do; where a tree has no such extension point the cases that need it are left out"]
SHARDS = 4
SEAM = True
PROFILES = ["poly", "param", "vortex", "fixed", "scaled", "ring", "product", "ramp", "ellipse", "mode", "same1", "same2"]
OPS = ["neg", "add", "radd", "cmul", "rmul", "pow", "shift", "rotate", "rescale_x", "rescale_y", "asc", "+B", "B+", "-B", "B*", "/B"]
USES = ["convert", "convert complex", "convert image", "propagate", "beam", "target", "window", "ifta beam", "ifta window", "amp", "phase", "gs beam", "gs target", "mraf window"]
DEVICES = ["Toy", "ToyToy", "Named", "Lossy", "ToyLCOS"]
DEV_OPS = ["on", "off", "grating", "patch", "hologram", "ifta", "assign", "edit", "propagate"]
LCOS_OPS = ["reset", "gs", "mraf", "assign", "edit", "propagate", "gs5", "copy", "grid"]
CTL = ["init", "s0", "m2", "num", "size", "close"]


def cases(env):
    T = env.thorough
    import pySLM2 as S
    if hasattr(S.FunctionProfile, "_func"):
        for c in PROFILES:
            ws = [list(w) for n in range(4 if T else 3) for w in itertools.product(OPS, repeat=n)]
            for q in range(0, len(ws), 140):
                yield {"kind": "words", "class": c, "mode": "eager", "ops": ws[q:q + 140]}
            yield {"kind": "words", "class": c, "mode": "graph", "ops": [[]] + [[o] for o in OPS]}
            yield {"kind": "uses", "class": c, "mode": "eager", "ops": USES}
        for c in PROFILES:
            yield {"kind": "together", "first": c, "mode": "graph", "ops": list(range(2 if T else 1))}
    for c in DEVICES:
        if c == "Lossy" and not hasattr(S.SLM, "_state_tensor"): continue
        for a in (LCOS_OPS if c == "ToyLCOS" else DEV_OPS):
            yield {"kind": "devices", "class": c, "mode": "eager", "first": a, "length": 4 if T else 3, "ops": [c]}
    if hasattr(S.SLM, "_state_tensor"):
        yield {"kind": "transmission", "mode": "graph", "ops": list(range(6))}
    yield {"kind": "simulations", "mode": "graph", "ops": list(range(3))}
    if not env.f64:
        for c in ("file", "alp", "lux"):
            for a in CTL:
                yield {"kind": "controllers", "class": c, "mode": "graph", "first": a, "length": 5 if T else 4, "ops": [c]}


_classes = {}


def classes():
    """name -> (class, how to make one, numpy formula of what is made or None)."""
    if _classes: return _classes
    import numpy as np, tensorflow as tf, pySLM2 as S
    B = S.BACKEND

    class Poly(S.FunctionProfile):
        def _func(self, x, y):
            return 0.3 * x * x - 0.5 * x * y + 1.0

    class Param(S.FunctionProfile):
        def __init__(self, k):
            super().__init__()
            self._k = tf.Variable(k, dtype=B.dtype)

        @tf.function
        def _func(self, x, y):
            return tf.cos(self._k * x) - 0.25 * y

        @property
        def k(self): return self._k.value()

        @k.setter
        def k(self, value): self._k.assign(value)

    class Vortex(S.FunctionProfile):
        def __init__(self, strength):
            super().__init__()
            self.strength = strength

        def _func(self, x, y):
            return tf.complex(x - 0.2, y + 0.1) * self.strength + 0.5

    class Fixed(S.SuperGaussian):
        def __init__(self):
            super().__init__(0.25, -0.5, 2.0, 2.5, 1.5)

    class Scaled(S.HermiteGaussian):
        def _func(self, x, y):
            return 2.0 * super()._func(x, y) + 0.5 * x

    class Ring(S.RectangularWindowCircular):
        def _func(self, x, y):
            return 1.0 - super()._func(x, y)

    class Product(S.FunctionProfile):
        def __init__(self, a, b):
            super().__init__()
            self.a, self.b = a, b

        def _func(self, x, y):
            return self.a._func(x, y) * (self.b._func(x, y) + 1.0)

    class Ramp(S.ConstantProfile):
        def _func(self, x, y):
            return super()._func(x, y) * (x + 0.25)

    class Ellipse(S.SuperGaussian):
        """Round only by inheritance."""
        def _func(self, x, y):
            return super()._func(x, 2.0 * y)

    class Mode(S.Zernike):
        def __init__(self, j):
            n, m = [(2, 0), (3, -1), (1, 1)][j]
            super().__init__(0.7, 3.7, n, m, extrapolate=True)

    def factory(k):
        class Same(S.FunctionProfile):
            def _func(self, x, y):
                return x + k * y
        return Same
    same1, same2 = factory(0.5), factory(-2.0)
    _classes.update({
        "ramp": (Ramp, lambda v=0: Ramp(1.5), lambda x, y: 1.5 * (x + 0.25)),
        "ellipse": (Ellipse, lambda v=0: Ellipse(0.0, 0.0, 1.5, 2.0), lambda x, y: 1.5 * np.exp(-(x ** 2 + 4 * y ** 2) / 4.0)),
        "mode": (Mode, lambda v=0: Mode(0), lambda x, y: 0.7 * np.sqrt(3) * (2 * (x ** 2 + y ** 2) / 3.7 ** 2 - 1)),
        "same1": (same1, lambda v=0: same1(), lambda x, y: x + 0.5 * y),
        "same2": (same2, lambda v=0: same2(), lambda x, y: x - 2.0 * y)})

    sg = lambda x, y: 2.0 * np.exp(-(((x - 0.25) ** 2 + (y + 0.5) ** 2) / 2.5 ** 2) ** 1.5)
    _classes.update({
        "poly": (Poly, lambda v=0: Poly(), lambda x, y: 0.3 * x * x - 0.5 * x * y + 1.0),
        "param": (Param, lambda v=0: Param(0.75), lambda x, y: np.cos(0.75 * x) - 0.25 * y),
        "vortex": (Vortex, lambda v=0: Vortex(1.5), lambda x, y: ((x - 0.2) + 1j * (y + 0.1)) * 1.5 + 0.5),
        "fixed": (Fixed, lambda v=0: Fixed(), sg),
        "scaled": (Scaled, lambda v=0: Scaled(0.25, -0.5, 1.5, 2.0, n=1, m=0), lambda x, y: 2.0 * 1.5 * 2 * np.sqrt(2) * (x - 0.25) / 2.0 * np.exp(-((x - 0.25) ** 2 + (y + 0.5) ** 2) / 4.0) + 0.5 * x),
        "ring": (Ring, lambda v=0: Ring(0.3, 0.1, 1.9), lambda x, y: ((x - 0.3) ** 2 + (y - 0.1) ** 2 > 1.9 ** 2) * 1.0),
        "product": (Product, lambda v=0: Product(Fixed(), S.SuperGaussian(-0.5, 0.0, 1.0, 3.0)), lambda x, y: sg(x, y) * (np.exp(-((x + 0.5) ** 2 + y ** 2) / 9.0) + 1.0))})

    class Toy(S.DMD):
        def __init__(self, negative_order=False):
            super().__init__(0.5, 8.0, 3.3, 0.4, 6, 5, 1.0, negative_order=negative_order)

    class ToyToy(Toy):
        """Yet another level, with the other order."""
        def __init__(self):
            super().__init__(negative_order=True)

    class Named(S.DMD):
        def __init__(self, name, *args, **kwargs):
            self.name, self.loaded = name, 0
            super().__init__(*args, **kwargs)
            self.loaded = 0

        def set_dmd_state_on(self):
            self.loaded += 1
            super().set_dmd_state_on()

    class ToyLCOS(S.LCOS_SLM):
        def __init__(self):
            super().__init__(0.5, 8.0, 6, 5, 1.0)

    twin = lambda neg=False: S.DMD(0.5, 8.0, 3.3, 0.4, 6, 5, 1.0, negative_order=neg)
    _classes.update({"Toy": (Toy, Toy, twin), "ToyToy": (ToyToy, ToyToy, lambda: twin(True)), "Named": (Named, lambda: Named("a", 0.5, 8.0, 3.3, 0.4, Nx=6, Ny=5, pixel_size=1.0), twin),
                     "ToyLCOS": (ToyLCOS, ToyLCOS, lambda: S.LCOS_SLM(0.5, 8.0, 6, 5, 1.0))})
    if hasattr(S.SLM, "_state_tensor"):
        class Lossy(Toy):
            def _state_tensor(self):
                return 0.5 * super()._state_tensor()

        class Plate(S.SLM):
            """A fixed plate with any complex transmission."""
            def __init__(self, t):
                super().__init__(0.5, 8.0, t.shape[1], t.shape[0], 1.0)
                self.t = t

            def _state_tensor(self):
                return tf.constant(self.t, dtype=B.dtype_complex)
        _classes.update({"Lossy": (Lossy, Lossy, twin), "Plate": (Plate, Plate, None)})
    return _classes


SGB = (0.5, -0.25, 1.0, 9.0)     # the built-in partner, between 0.4 and 1 on all points used


def apply(op, p, B):
    """The operation on a profile p (B: the built-in partner)."""
    return {"neg": lambda: -p, "add": lambda: p + 2.5, "radd": lambda: (1 + 2j) + p, "cmul": lambda: p * 1.5j, "rmul": lambda: -2 * p, "pow": lambda: p ** 2, "shift": lambda: p.shift(0.5, -0.25), "rotate": lambda: p.rotate(0.7),
            "rescale_x": lambda: p.rescale_x(1.5), "rescale_y": lambda: p.rescale_y(-0.5), "asc": lambda: p.as_complex_profile(), "+B": lambda: p + B, "B+": lambda: B + p, "-B": lambda: p - B, "B*": lambda: B * p, "/B": lambda: p / B}[op]()


def formula(op, f, b):
    import numpy as np
    c, s = np.cos(0.7), np.sin(0.7)
    return {"neg": lambda x, y: -f(x, y), "add": lambda x, y: f(x, y) + 2.5, "radd": lambda x, y: f(x, y) + (1 + 2j), "cmul": lambda x, y: f(x, y) * 1.5j, "rmul": lambda x, y: -2 * f(x, y), "pow": lambda x, y: f(x, y) ** 2,
            "shift": lambda x, y: f(x - 0.5, y + 0.25), "rotate": lambda x, y: f(c * x - s * y, s * x + c * y), "rescale_x": lambda x, y: f(x / 1.5, y), "rescale_y": lambda x, y: f(x, y / -0.5), "asc": lambda x, y: np.exp(1j * f(x, y)),
            "+B": lambda x, y: f(x, y) + b(x, y), "B+": lambda x, y: f(x, y) + b(x, y), "-B": lambda x, y: f(x, y) - b(x, y), "B*": lambda x, y: f(x, y) * b(x, y), "/B": lambda x, y: f(x, y) / b(x, y)}[op]


def run_case(env, case):
    import numpy as np, tensorflow as tf, boot
    tf.config.run_functions_eagerly(case["mode"] == "eager")
    boot.SEAM.script = lambda shape: (np.arange(int(np.prod(shape))) * 7 % 13 / 13.0).reshape(shape)
    try:
        {"words": words, "uses": uses, "together": together, "devices": devices, "transmission": transmission, "simulations": simulations, "controllers": controllers}[case["kind"]](env, case)
    finally:
        boot.SEAM.script = None
        tf.config.run_functions_eagerly(False)


def words(env, case):
    import numpy as np, pySLM2 as S
    make, f0 = classes()[case["class"]][1:]
    b = lambda x, y: np.exp(-((x - 0.5) ** 2 + (y + 0.25) ** 2) / 81.0)
    B = S.SuperGaussian(*SGB)
    base = make()
    # irrational coordinates: no point lies within rounding of the ring's rim
    x, y = np.meshgrid(np.array([-2.71, -0.83, 0.0, 0.57, 1.91, 3.11]), np.array([-1.63, 0.0, 0.41, 2.23]))
    for k, w in enumerate(case["ops"]):
        env.failed_at = k
        p, f, made = base, f0, []
        for o in w:
            p, f = apply(o, p, B), formula(o, f, b)
            env.check(isinstance(p, S.FunctionProfile), lambda: "%s of a %s is %s" % (w, case["class"], type(p)))
        with np.errstate(all="ignore"):
            want = f(x, y) + np.zeros(x.shape)
        cplx = case["class"] == "vortex" or any(o in ("radd", "cmul", "asc") for o in w)
        got = p(x, y)
        env.step()
        top = float(np.max(np.abs(want)))
        if not np.isfinite(top) or top > 1e4: continue       # exponentials of exponentials
        what = "%s of a %s" % (w, case["class"])
        env.close(got, want, what, scale=max(1.0, top), tol32=1e-4, tol64=1e-10, dtype=env.cplx if cplx else env.real)
        if not w or case["mode"] == "graph":
            for u, v in ((0.57, -1.63), (x[0], y[1]), (x[:1], y[:, :1])):
                env.close(p(u, v), np.asarray(f(np.asarray(u), np.asarray(v)) + np.zeros(np.broadcast(u, v).shape)), what + " on other points", scale=max(1.0, top), tol32=1e-4, tol64=1e-10)
        env.state((case["class"], w, case["mode"])); env.outcome_array(want)
    if case["class"] == "param":        # derived profiles follow
        q = [apply(o, base, B) for o in OPS]
        for z in q: z(x, y)
        for value in (-0.3, 1.9, 0.75):
            base.k = value
            for o, z in zip(OPS, q):
                f = formula(o, lambda u, v: np.cos(value * u) - 0.25 * v, b)
                env.close(z(x, y), f(x, y) + np.zeros(x.shape), "%s after setting the parameter of a user's profile to %s" % (o, value), scale=10.0, tol32=1e-4, tol64=1e-10)
                env.step()


def together(env, case):
    """Words of conversions of objects of different classes on one device, and calls."""
    import numpy as np, pySLM2 as S, optics
    d = optics.Dev(6, 5, 0.83, 0.5, 8.0)
    grids = [[g + 0.0 for g in d.fgrid()], [g + 0.0 for g in d.igrid()]]
    for k in case["ops"]:
        env.failed_at = k
        for w in itertools.product(PROFILES, repeat=k + 1):
            s = S.DMD(d.lam, d.foc, 3.3, 0.4, d.Nx, d.Ny, d.px)
            for c in (case["first"],) + w + (case["first"],):
                make, f = classes()[c][1:]
                for fourier in (True, False):
                    x, y = grids[0 if fourier else 1]
                    t = s.profile_to_tensor(make(), at_fourier_plane=fourier, complex=True).numpy()
                    want = f(x, y) + 0j
                    env.close(t, want, "%s converted on a device after %s" % (c, (case["first"],) + w), tol32=1e-4, tol64=1e-10, scale=max(1.0, float(np.max(np.abs(want)))), dtype=env.cplx)
                    env.step(); env.outcome_array(want)
            env.state(("together", case["first"], w))


def uses(env, case):
    import numpy as np, pySLM2 as S, optics, holo
    make, f = classes()[case["class"]][1:]
    d = optics.Dev(6, 5, 0.83, 0.5, 8.0)
    X, Y = d.fgrid(); U, V = d.igrid()
    U, V = U + 0.0, V + 0.0
    cplx = case["class"] == "vortex"
    beam, target = holo.beams(d)["tilt"][1], holo.targets(d)["pattern"][1]
    W = (np.abs(U) < 1.7) * 1.0

    def results(what, o, q):
        """What comes out when o is used as ...; q: the device."""
        s, l = q
        if what == "propagate":
            s.dmd_state = (np.arange(30).reshape(5, 6) * 3) % 7 < 4
            m = S.DMDSimulation(s, 1, 2)
            m.propagate_to_image(o)
            return [m.input_field, m.output_field, m.image_plane_field, m.get_input_power()]
        if what == "beam": e = s.calculate_dmd_state(o, target, method="ideal")
        elif what == "target": e = s.calculate_dmd_state(beam, o, method="ideal")
        elif what == "window": e = s.calculate_dmd_state(beam, target, method="ideal", window=o)
        elif what == "ifta beam": e = s.calculate_dmd_state(o, target, method="ifta", N=2, signal_window=W)
        elif what == "ifta window": e = s.calculate_dmd_state(beam, target, method="ifta", N=2, signal_window=o)
        elif what == "amp": e = s.set_dmd_grating_state(o, 0.0, 0.0, method="ideal")
        elif what == "phase": e = s.circular_patch(2, 3, 0.8, o, 0.3, 4.0, method="ideal")
        elif what == "gs beam": e = l.calculate_hologram(o, np.abs(target), N=2)
        elif what == "gs target": e = l.calculate_hologram(beam, o, N=2)
        elif what == "mraf window": e = l.calculate_hologram(beam, np.abs(target), method="mraf", N=2, signal_window=o)
        return [s.dmd_state, l.slm_state] + ([] if e is None else [e])

    for k, what in enumerate(case["ops"]):
        env.failed_at = k
        image = what in ("convert image", "target", "ifta window", "gs target", "mraf window")
        full = what in ("convert complex", "propagate", "beam", "target", "window", "ifta beam", "ifta window", "gs beam", "mraf window")
        if cplx and not full and what != "convert image": continue
        prof = make()
        s, l = S.DMD(d.lam, d.foc, 3.3, 0.4, d.Nx, d.Ny, d.px), S.LCOS_SLM(d.lam, d.foc, d.Nx, d.Ny, d.px)
        t = s.profile_to_tensor(prof, at_fourier_plane=not image, complex=full or cplx).numpy()
        want = f(U, V) if image else f(X, Y)
        env.close(t, want + (0j if full or cplx else 0), "%s converted for %s" % (case["class"], what), tol32=1e-4, tol64=1e-10, scale=max(1.0, float(np.max(np.abs(want)))), dtype=env.cplx if full or cplx else env.real)
        env.step()
        if not what.startswith("convert"):
            got = results(what, prof, (s, l))
            twin = results(what, t, (S.DMD(d.lam, d.foc, 3.3, 0.4, d.Nx, d.Ny, d.px), S.LCOS_SLM(d.lam, d.foc, d.Nx, d.Ny, d.px)))
            for n, (g, w) in enumerate(zip(got, twin)):
                env.check(np.asarray(g).dtype == np.asarray(w).dtype, lambda: "%s as %s: result %d has type %s, its samples give %s" % (case["class"], what, n, np.asarray(g).dtype, np.asarray(w).dtype))
                env.check(np.array_equal(g, w, equal_nan=True), lambda: "%s as %s: result %d is not that of its samples" % (case["class"], what, n))
                env.outcome_array(np.nan_to_num(w))
            env.step()
        env.state((case["class"], what))


def dev_op(S, o, s, sim, n):
    """One operation on a DMD (n: place in the word); returns what it gives."""
    import numpy as np
    X, Y = np.meshgrid(np.arange(6.0), np.arange(5.0))
    if o == "on": s.set_dmd_state_on()
    elif o == "off": s.set_dmd_state_off()
    elif o == "grating": s.set_dmd_grating_state(0.8, 0.2 * X, 0.1 * n, method="simple")
    elif o == "patch": s.circular_patch(1 + n, 3, 0.9, 0.0, 0.4 * n, 3.0, method="random")
    elif o == "hologram": return s.calculate_dmd_state(np.exp(0.3j * X), np.cos(X + n * Y) + 1j, method="ideal" if n == 1 else "simple")
    elif o == "ifta": return s.calculate_dmd_state(np.exp(0.3j * X), np.cos(X * n + Y) + 1j, method="ifta", N=2, signal_window=(X > n) * 1.0)
    elif o == "assign": s.dmd_state = (X + n * Y) % 3 < 1.5
    elif o == "edit": s.dmd_state[n % 5, :3] = 1
    elif o == "propagate":
        sim.propagate_to_image(1.0 + 0.1 * X)
        sim.block_zeroth_order()
        return [sim.output_field, sim.image_plane_field, sim.get_output_power(), sim.get_image_plane_power()] + list(sim.first_order_origin)
    return None


def lcos_op(S, o, s, sim, n):
    import numpy as np
    X, Y = np.meshgrid(np.arange(6.0), np.arange(5.0))
    if o == "reset": s.reset_slm_state()
    elif o in ("gs", "gs5"): s.calculate_hologram(np.exp(0.2j * X), 1.0 + np.cos(X + n * Y), N=2 if o == "gs" else 5)
    elif o == "mraf": s.calculate_hologram(1.0, 1.0 + np.cos(X + Y), method="mraf", N=2, signal_window=(X > n) * 1.0)
    elif o == "assign": s.slm_state = 0.3 * X - n * Y
    elif o == "edit": s.slm_state[n % 5, :3] = 1
    elif o == "copy": s.slm_state = s.slm_state.copy()
    elif o == "grid": return list(s.fourier_plane_grid) + list(s.image_plane_grid)
    elif o == "propagate":
        sim.propagate_to_image(1.0 + 0.1 * X)
        return [sim.output_field, sim.image_plane_field, sim.get_output_power(), sim.get_image_plane_power()]
    return None


def flat(r):
    import numpy as np
    return [] if r is None else [np.asarray(q) for q in (r if isinstance(r, list) else [r])]


def devices(env, case):
    import numpy as np, pySLM2 as S
    cls, make, twin = classes()[case["class"]]
    lcos = case["class"] == "ToyLCOS"
    op, ops = (lcos_op, LCOS_OPS) if lcos else (dev_op, DEV_OPS)
    for w in itertools.product(ops, repeat=case["length"] - 1):
        w = (case["first"],) + w
        a, b = make(), twin()
        sims = [(S.SLMSimulation if lcos else S.DMDSimulation)(q, padding_x=1, padding_y=2) for q in (a, b)]
        for n, o in enumerate(w):
            ra, rb = flat(op(S, o, a, sims[0], n)), flat(op(S, o, b, sims[1], n))
            env.step()
            what = "%s after %s" % (case["class"], w[:n + 1])
            factor = 1.0
            if case["class"] == "Lossy" and o == "propagate": factor = [0.5, 0.5, 0.25, 0.25, 1.0, 1.0]
            for q, (x, y) in enumerate(zip(ra, rb)):
                env.close(x, y * (factor if factor == 1.0 else factor[q]), "%s: result %d" % (what, q), scale=max(1e-9, float(np.max(np.abs(y)))), tol32=1e-5, tol64=1e-12)
            sa, sb = (a.slm_state, b.slm_state) if lcos else (a.dmd_state, b.dmd_state)
            env.check(sa.dtype == sb.dtype and np.array_equal(sa, sb), lambda: "%s: its state is not that of the class it extends" % what)
        if not lcos and b.dmd_state.dtype == bool:
            env.check(a.pack_dmd_state() == b.pack_dmd_state(), lambda: "%s: packed differently" % (w,))
        if case["class"] == "Named": env.check(a.loaded >= w.count("on") and a.name == "a", lambda: "the attributes of a user's class changed after %s" % (w,))
        env.state((case["class"], w)); env.outcome_array(b.slm_state if lcos else b.dmd_state)


def transmission(env, case):
    import numpy as np, pySLM2 as S, optics
    Plate = classes()["Plate"][0]
    for k in case["ops"]:
        env.failed_at = k
        nx, ny = [(4, 3), (3, 4), (5, 5), (1, 4), (6, 2), (4, 4)][k]
        d = optics.Dev(nx, ny, 1.0, 0.5, 8.0)
        X, Y = d.fgrid()
        t = [np.exp(1j * X * Y), 0.3 + 0 * X, (X > 0) * (0.5 - 0.2j), 1.0 / (1 + X * X + Y * Y), np.exp(-1j * (X + Y)) * 0.7, 0 * X][k]
        plate = Plate(t)
        for (px, py), name in itertools.product(((0, 0), (1, 2), (3, 0)), ("tilt", "one")):
            beam = np.exp(0.4j * X - 0.1 * Y) if name == "tilt" else 1.0
            m = S.SLMSimulation(plate, px, py)
            m.propagate_to_image(beam)
            out = d.embed(beam * t, px, py)
            env.close(m.input_field, d.embed(beam * np.ones(X.shape), px, py), "input field before a user's modulator", scale=2.0, tol32=1e-5, tol64=1e-12, dtype=env.cplx)
            env.close(m.output_field, out, "output field behind a user's modulator", scale=2.0, tol32=1e-5, tol64=1e-12, dtype=env.cplx)
            env.close(m.image_plane_field, d.to_image(out, px, py), "image of a user's modulator", scale=float(np.sum(np.abs(out))) * d.px ** 2 / d.sf + 1e-9, tol32=1e-5, tol64=1e-12, dtype=env.cplx)
            env.close(m.get_output_power(), np.sum(np.abs(out) ** 2) * d.px ** 2, "power behind a user's modulator", scale=20.0, tol32=1e-5, tol64=1e-12)
            env.step(); env.state(("plate", k, px, py, name)); env.outcome_array(out)
        for a, b in zip(plate.fourier_plane_grid + plate.image_plane_grid, list(d.fgrid()) + list(d.igrid())):
            env.close(a, b, "grids of a user's modulator", scale=10.0, tol32=1e-6, tol64=1e-13)
        env.raises(TypeError, lambda: S.DMDSimulation(plate), "DMDSimulation of a user's modulator")


def simulations(env, case):
    import numpy as np, pySLM2 as S, optics
    d = optics.Dev(6, 5)
    X, Y = d.fgrid()

    class Peak(S.SLMSimulation):
        def peak(self):
            return np.unravel_index(np.argmax(self.image_plane_intensity), (self.Ny, self.Nx))

    class Counting(S.DMDSimulation):
        def __init__(self, dmd, **kw):
            super().__init__(dmd, **kw)
            self.runs = 0

        def propagate_to_image(self, input_profile):
            self.runs += 1
            return super().propagate_to_image(input_profile)

    class Both(Counting, Peak):
        pass
    for k in case["ops"]:
        env.failed_at = k
        for w in itertools.product(["P", "P2", "B", "b", "C", "state"], repeat=4):
            s = [S.DMD(0.5, 8.0, 3.3, 0.4, 6, 5, 1.0) for _ in range(2)] if k or len(set(w)) < 4 else [classes()["Toy"][1]() for _ in range(2)]
            for q in s: q.dmd_state = (X + 2 * Y) % 3 < 2
            a = [Peak, Counting, Both][k](s[0], padding_x=1, padding_y=0)
            b = (S.SLMSimulation if k == 0 else S.DMDSimulation)(s[1], 1, 0)
            n = 0
            for o in w:
                if o in ("P", "P2"):
                    for m in (a, b): m.propagate_to_image(np.exp(0.3j * X) if o == "P" else 0.5)
                    n += 1
                elif o in ("B", "b"):
                    if k == 0 or b.output_field is None: continue
                    for m in (a, b): m.block_zeroth_order(*([] if o == "B" else [2.5]))
                elif o == "C": a.clear(); b.clear()
                else:
                    for q in s: q.dmd_state = ~q.dmd_state
                env.step()
                for name in ("input_field", "output_field", "image_plane_field", "image_plane_intensity"):
                    x, y = getattr(a, name), getattr(b, name)
                    env.check((x is None) == (y is None) and (x is None or np.array_equal(x, y)), lambda: "%s of a user's simulation class after %s" % (name, w))
                if b.output_field is not None:
                    env.check(a.get_output_power() == b.get_output_power() and a.get_image_plane_power() == b.get_image_plane_power(), lambda: "powers of a user's simulation class after %s" % (w,))
                    if k != 1: env.check(a.image_plane_intensity[a.peak()] == b.image_plane_intensity.max(), "peak of a user's simulation class")
            if k: env.check(a.runs >= n, lambda: "a user's propagate_to_image was called %d times for %d propagations" % (a.runs, n))
            env.state((k, w)); env.outcome((k, w))


_ctl = {}


def controllers(env, case):
    import numpy as np
    from props import p21, p22
    kind = case["class"]
    log = []
    for w in itertools.product(CTL, repeat=case["length"] - 1):
        w = (case["first"],) + w
        del log[:]
        if kind == "alp":
            device, c0 = p21.controller(False, False, (40, 16))
            mod, base = p21._cache["module"], None
            shown = lambda: device.shown
        elif kind == "lux":
            device, c0 = p22.controller(False, (40, 16))
            mod = p22._cache["module"]
            shown = lambda: device.mirrors
        else:
            device, c0 = p22.controller(False, (40, 16))
            mod = p22._cache["module"]
        key = (kind, id(mod))
        if key not in _ctl:
            _ctl[key] = build_controller(mod, kind, log)
        cls, sink = _ctl[key]
        log = sink
        del log[:]
        c = cls()
        env.check(c.is_initialized() is False, "a new %s controller claims to be initialized" % kind)
        on = False
        frames = [np.arange(640).reshape(16, 40) % q == 0 for q in (2, 3)]
        for n, o in enumerate(w):
            what = "user's %s controller after %s" % (kind, w[:n + 1])
            before = len(log)
            if o == "init":
                if on and kind == "alp": continue
                c.initialize(); on = True
                env.check(log[before:].count("initialize") == 1, lambda: what + ": its own initialize did not run once")
            elif o == "close":
                if kind == "alp" and not on: continue
                c.close()
                env.check(log[before:].count("close") == 1, lambda: what + ": its own close did not run once")
                if kind == "alp": on = False
            else:
                f = {"s0": lambda: c.load_single(frames[n % 2]), "m2": lambda: c.load_multiple(frames), "num": lambda: c.number_image(n), "size": lambda: (c.Nx, c.Ny)}[o]
                # what the user's class leaves to its base is refused before initialization
                guarded = o == "num" or kind != "file" and (o in ("m2", "size") or o == "s0")
                if guarded and not on:
                    env.raises(Exception, f, what)
                else:
                    r = f()
                    if o == "size": env.check(tuple(r) == (40, 16), lambda: "%s: size %s" % (what, r))
                    elif o == "num": env.check(r.shape == (16, 40) and r.dtype == bool and r.any(), lambda: "%s: number image %s" % (what, r.shape))
                    elif kind == "file": env.check(log[before:] == [o], lambda: "%s: log %s" % (what, log[before:]))
                    elif o == "s0":
                        env.check(log[before:].count("single") == 1, lambda: "%s: log %s" % (what, log[before:]))
                        env.check(np.array_equal(shown(), ~frames[n % 2]), lambda: what + ": the device does not show what the user's load_single sends")
            env.check(c.is_initialized() is on, lambda: what + ": is_initialized is %s" % c.is_initialized())
            env.step()
        env.state((kind, w)); env.outcome((kind, w, len(log)))
        if kind == "alp" and on: c.close()


def build_controller(mod, kind, _):
    log = []
    if kind == "file":
        class File(mod.DMDControllerBase):
            def initialize(self):
                log.append("initialize"); super().initialize()

            def close(self):
                log.append("close"); super().close()

            def load_single(self, dmd_state): log.append("s0")
            def load_multiple(self, dmd_states): log.append("m2")

            @property
            def Nx(self): return 40

            @property
            def Ny(self): return 16
        return File, log
    base = mod.ALPController if kind == "alp" else mod.LuxbeamController

    class Mine(base):
        """Shows the negative of single frames."""
        def __init__(self):
            if kind == "alp": super().__init__(invert=False)
            else: super().__init__("10.0.0.1")

        def initialize(self):
            log.append("initialize"); super().initialize()

        def close(self):
            log.append("close"); super().close()

        def load_single(self, dmd_state):
            if self.is_initialized(): log.append("single")
            super().load_single(~dmd_state)
    return Mine, log
