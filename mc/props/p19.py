"""P19: precision is chosen once and then uniform in every result."""
import itertools, sys
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of configuration histories (all words over assignments, reads and uses, each on a freshly imported package) on the real configuration object against a reference latch automaton, and of every public entry point as the first use under every configuration prefix"
BOUNDS = {
    "quick": "every word of length 4 over {32 bit, 64 bit, 2 unsupported values, 3 reads, construction, evaluation}; 23 entry points as first use x 6 prefixes x {evaluated at once, assignment between construction and evaluation, two assignments}, in eager mode, and 6 x 23 in graph mode; every ordered pair of entry points under both precisions; 20 unsupported and 9 equivalent values; 4 modules as first import",
    "thorough": "every word of length 6, every pair of entry points with an assignment attempt in between in graph mode"}
RULE = "state = state of the reference latch automaton plus history; transition = one operation on the configuration or the package; an outcome is a distinct (entry point, precision, element types)"
ASSUMPTIONS = ["whether constructing an object without evaluating anything already fixes the precision is left open (either answer must be consistent with all later results)"]
SHARDS = 8
DTYPES = ("float32",)
SET_DTYPE = False

BAD = ["tf.float16", "tf.bfloat16", "tf.complex64", "tf.complex128", "tf.int32", "tf.int64", "tf.bool", "tf.string", "None", "'bad'", "'float16'", "'complex64'", "np.float16", "np.int32", "np.complex64", "int", "bool", "object()", "()", "32.5"]
EQUIV = [("np.float32", 32), ("np.float64", 64), ("'float32'", 32), ("'float64'", 64), ("np.dtype('float64')", 64), ("np.dtype('float32')", 32), ("S.BACKEND.TENSOR_64BITS", 64), ("S.BACKEND.TENSOR_32BITS", 32), ("tf.dtypes.double", 64)]
PREFIX = [[], ["s32"], ["s64"], ["s64", "s32"], ["s32", "s64", "bad0"], ["bad1", "s64", "s64"]]
NAMES = ["hg", "lg", "sg", "zernike", "constant", "complex", "rect", "circ", "function", "sum", "mixed", "transformed", "asc", "dmdgrid", "dmdgrating", "dmdpatch", "dmdholo", "dmdifta", "lcosgrid", "gs", "mraf", "convert", "simulation"]
WORD = ["s32", "s64", "bad0", "bad4", "rd", "rc", "ri", "new", "use"]


def cases(env):
    n = 6 if env.thorough else 4
    words = itertools.product(WORD, repeat=n)
    group = []
    for i, w in enumerate(words):
        group.append(list(w))
        if len(group) == 32:
            yield {"kind": "words", "ops": group}; group = []
    if group:
        yield {"kind": "words", "ops": group}
    for a in NAMES:
        for p in PREFIX:
            for tail in (["eval", "s32", "s64", "bad0", "eval"], ["s64", "eval", "s32", "eval"], ["s32", "bad4", "eval", "s64"], ["s64", "s32", "eval", "s64", "eval"]):
                yield {"kind": "first", "mode": "eager", "ops": p + ["new:" + a] + [t if t != "eval" else "eval:" + a for t in tail]}
            yield {"kind": "first", "mode": "graph", "ops": p + ["new:" + a, "eval:" + a, "s64", "s32", "eval:" + a]}
    for a, b in itertools.product(NAMES, repeat=2):
        for p in ([], ["s64"]):
            yield {"kind": "first", "mode": "graph" if env.thorough else "eager", "ops": p + ["new:" + a, "new:" + b, "eval:" + a, "s64" if not p else "s32", "eval:" + b]}
    for v in range(len(BAD)):
        for p in ([], ["s64"], ["s64", "s32"]):
            yield {"kind": "first", "mode": "eager", "ops": p + ["bad%d" % v, "rd", "rc", "ri", "bad%d" % v, "new:mixed", "eval:mixed", "bad%d" % v, "rd"]}
    for v in range(len(EQUIV)):
        for p in ([], ["s32"], ["s64"]):
            for a in ("mixed", "gs", "dmdholo", "simulation"):
                yield {"kind": "first", "mode": "eager", "ops": p + ["eq%d" % v, "new:" + a, "eval:" + a, "rd", "rc", "ri", "s32"]}
    for m in ("pySLM2.util", "pySLM2.util.controller", "pySLM2.util.sample", "pySLM2.analysis"):
        for s in ("s32", "s64"):
            yield {"kind": "first", "mode": "eager", "first": m, "ops": [s, "s64", s, "new:mixed", "eval:mixed", "s32", "rd"]}


def fresh(first=None):
    import importlib
    for k in [k for k in sys.modules if k == "pySLM2" or k.startswith("pySLM2.")]:
        del sys.modules[k]
    if first:
        importlib.import_module(first)
    import pySLM2
    return pySLM2


def construct(S, name):
    """The object(s) of an entry point; nothing is evaluated."""
    import numpy as np
    dmd = lambda: S.DMD(0.5, 8.0, 3.3, 0.4, 5, 4, 1.0)
    lc = lambda: S.LCOS_SLM(0.5, 8.0, 5, 4, 1.0)
    hg = lambda: S.HermiteGaussian(0.1, 0.2, 1.0, 2.0, n=1, m=0)
    lg = lambda: S.LaguerreGaussian(0.1, 0.2, 1.0, 2.0, l=1, p=1)
    return {"hg": hg, "lg": lg, "sg": lambda: S.SuperGaussian(0.1, 0.2, 1.0, 2.0, 2), "zernike": lambda: S.Zernike(1.0, 3.0, 2, 0),
            "constant": lambda: S.ConstantProfile(2), "complex": lambda: S.ConstantProfile(1 - 2j), "rect": lambda: S.RectangularWindowRectangle(0, 0, 2, 3),
            "circ": lambda: S.RectangularWindowCircular(0, 0, 2), "function": function(S), "sum": lambda: hg() + 2 * S.SuperGaussian(0, 0, 1, 2, 1),
            "mixed": lambda: hg() * lg() - (0.5 + 1j), "transformed": lambda: hg().shift(0.5, 1).rotate(0.3).rescale_x(2).rescale_y(0.5), "asc": lambda: hg().as_complex_profile(),
            "dmdgrid": dmd, "dmdgrating": dmd, "dmdpatch": dmd, "dmdholo": dmd, "dmdifta": dmd, "lcosgrid": lc, "gs": lc, "mraf": lc, "convert": lc,
            "simulation": lambda: S.DMDSimulation(dmd(), padding_x=1, padding_y=2)}[name]()


def function(S):
    import tensorflow as tf

    def make():
        class P(S.FunctionProfile):
            @tf.function
            def _func(self, x, y):
                return x * y - x
        return P()
    return make


KIND = {"hg": "r", "lg": "c", "sg": "r", "zernike": "r", "constant": "r", "complex": "c", "rect": "r", "circ": "r", "function": "r", "sum": "r", "mixed": "c", "transformed": "r", "asc": "c"}


def evaluate(S, name, o):
    """[(label, result, kind)] with kind r (real), c (complex) or b (Boolean)."""
    import numpy as np, tensorflow as tf
    x, y = np.linspace(-1, 1, 4), np.linspace(0, 1, 4).astype(np.float32)
    if name in KIND:
        k = KIND[name]
        return [("arrays", o(x, y.astype(float)), k), ("32 bit arrays", o(y, y), k), ("integers", o(np.arange(3), np.arange(3)), k), ("numbers", o(0.5, 1), k)]
    beam = np.exp(0.3j * np.arange(20)).reshape(4, 5)
    tgt = (1.0 + np.arange(20) % 3).reshape(4, 5)
    if name in ("dmdgrid", "lcosgrid"):
        others = [o] + [S.LCOS_SLM(0.5, 8.0, nx, ny, 1.0) for nx, ny in ((1, 4), (5, 1), (1, 1), (3, 7))]
        return [(n, a, "r") for d in others for n in ("fourier_plane_grid", "image_plane_grid") for a in getattr(d, n)]
    if name == "dmdgrating":
        out = []
        for m, k in (("ideal", "r"), ("simple", "b"), ("random", "b")):
            o.set_dmd_grating_state(0.5, tgt, np.float32(0.3) * tgt.astype(np.float32), method=m)
            out.append((m, o.dmd_state, k))
        return out
    if name == "dmdpatch":
        out = []
        for m, k in (("simple", "b"), ("random", "b"), ("ideal", "r")):
            o.set_dmd_state_on()
            o.circular_patch(1, 2.5, 0.5, 0, tgt, 3, method=m)
            out.append((m, o.dmd_state, k))
        return out
    if name == "dmdholo":
        out = []
        for b in (beam, beam.astype(np.complex64), 1.0, S.HermiteGaussian(0, 0, 1, 4)):
            o.calculate_dmd_state(b, tgt, method="ideal")
            out.append(("ideal", o.dmd_state, "r"))
        o.calculate_dmd_state(beam, tgt, method="simple", window=tgt)
        return out + [("simple", o.dmd_state, "b")]
    if name == "dmdifta":
        o.calculate_dmd_state(beam, tgt, method="ifta", signal_window=S.RectangularWindowRectangle(0, 0, 1, 1), N=2)
        return [("ifta", o.dmd_state, "b")]
    if name == "gs":
        o.calculate_hologram(beam, tgt, N=2)
        return [("gs", o.slm_state, "r")]
    if name == "mraf":
        o.calculate_hologram(1.0, tgt, method="mraf", signal_window=1, N=2)
        return [("mraf", o.slm_state, "r")]
    if name == "convert":
        out = []
        for v in (1, 0.5, x[:, None] * np.arange(5), tgt.astype(np.float32), tf.constant(tgt), S.HermiteGaussian(0, 0, 1, 2)):
            out += [("real", o.profile_to_tensor(v).numpy(), "r"), ("image plane", o.profile_to_tensor(v, at_fourier_plane=False).numpy(), "r"), ("complex", o.profile_to_tensor(v, complex=True).numpy(), "c")]
        return out
    out = []
    for b in (beam, tgt.astype(np.float32), 2):
        o.propagate_to_image(b)
        out += [("input field", o.input_field, "c"), ("output field", o.output_field, "c"), ("image field", o.image_plane_field, "c"),
                ("input intensity", o.input_intensity, "r"), ("output intensity", o.output_intensity, "r"), ("image intensity", o.image_plane_intensity, "r")]
    o.block_zeroth_order()
    return out + [("blocked field", o.image_plane_field, "c")] + [("padded grid", a, "r") for a in tuple(o.fourier_plane_padded_grid) + tuple(o.image_plane_padded_grid)]


def run_case(env, case):
    import tensorflow as tf
    tf.config.run_functions_eagerly(case.get("mode", "eager") == "eager")
    try:
        if case["kind"] == "words":
            for k, w in enumerate(case["ops"]):
                env.failed_at = k
                history(env, [{"new": "new:mixed", "use": "eval:mixed"}.get(o, o) for o in w], None)
        else:
            history(env, case["ops"], case.get("first"))
        env.sample({"case": dict(case, ops=case["ops"][:2])})
    finally:
        tf.config.run_functions_eagerly(False)


def history(env, ops, first):
    import numpy as np, tensorflow as tf
    S = fresh(first)
    B = S.BACKEND
    prec, used, maybe = 32, False, False            # reference latch; maybe: construction may have fixed the precision
    objs = {}
    for k, op in enumerate(ops):
        what = "operation %d (%s) of %s" % (k, op, ops)
        if op[:3] == "bad" or op in ("s32", "s64") or op[:2] == "eq":
            if op[:3] == "bad": value, want = eval(BAD[int(op[3:])], {"tf": tf, "np": np}), None
            elif op[:2] == "eq": value, want = eval(EQUIV[int(op[2:])][0], {"tf": tf, "np": np, "S": S}), EQUIV[int(op[2:])][1]
            else: value, want = (tf.float32 if op == "s32" else tf.float64), int(op[1:])
            try:
                B.dtype = value
                got = "accepted"
            except Exception as e:
                got = type(e).__name__
            if used: ok = ["AssertionError"]
            elif want is None: ok = ["ValueError"] + (["AssertionError"] if maybe else [])
            elif op[:2] == "eq" and int(op[2:]) not in (6, 7): ok = ["accepted", "ValueError"]
            else: ok = ["accepted"] + (["AssertionError"] if maybe else [])
            env.check(got in ok, lambda: "%s: assignment of %r %s, expected %s" % (what, value, got, ok))
            if got == "accepted": prec = want
            if got == "AssertionError": used = True
        elif op in ("rd", "rc", "ri"):
            v = {"rd": lambda: B.dtype, "rc": lambda: B.dtype_complex, "ri": lambda: B.dtype_int}[op]()
            w = {"rd": (tf.float32, tf.float64), "rc": (tf.complex64, tf.complex128), "ri": (tf.int32, tf.int64)}[op][prec == 64]
            env.check(v == w, lambda: "%s: read %s, expected %s" % (what, v, w))
            used = True
        elif op[:4] == "new:":
            objs[op[4:]] = construct(S, op[4:])
            maybe = True
        else:
            name = op[5:]
            if name not in objs:
                objs[name] = construct(S, name)
            kinds = {"r": (np.float32, np.float64)[prec == 64], "c": (np.complex64, np.complex128)[prec == 64], "b": np.bool_}
            for label, v, kd in evaluate(S, name, objs[name]):
                v = np.asarray(v)
                env.check(v.dtype == kinds[kd], lambda: "%s: %s %s is %s, expected %s" % (what, name, label, v.dtype, np.dtype(kinds[kd])))
                env.outcome((name, label, prec, str(v.dtype)))
            used = True
        env.step()
        env.state((ops[:k + 1], prec, used))
    for n, w in (("dtype", (tf.float32, tf.float64)), ("dtype_complex", (tf.complex64, tf.complex128)), ("dtype_int", (tf.int32, tf.int64))):
        env.check(getattr(B, n) == w[prec == 64], lambda: "after %s: %s is %s" % (ops, n, getattr(B, n)))
