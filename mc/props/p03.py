"""P03: profiles evaluate with their current parameters, independently, after any history of assignments and evaluations."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of assignment/evaluation histories on the real profile objects (de Bruijn tours and all short histories from fresh objects) against a parameter-record reference model"
BOUNDS = {
    "quick": "6 classes, two instances each plus 3 derived profiles: every sequence of 2 assignments (every parameter of both instances, 3 values, mixed value types) evaluated after each step on traced profiles; every sequence of 3 operations of {build derived, evaluate A on a plane / at a point, evaluate derived, assign to A, assign to B} from fresh objects for one parameter per class and of 2 for every other parameter; every word of 2 assignments of close (3e-3, 2e-5), far, opposite and zero values in 4 systems of units",
    "thorough": "sequences of 3 assignments, sequences of 4 operations from fresh objects"}
RULE = "state = (class, parameter values of both instances, which evaluations were traced); transition = one operation followed by comparing all profiles and getters; an outcome is a distinct sampled result"
ASSUMPTIONS = ["complex values are only assigned to constants constructed complex"]
SHARDS = 4
FAST_TRACE = True

# class -> parameters -> values (three each, typed); the constructor gets the first of each
CLS = {
    "HG": [("x0", [["f", 0.5], ["i", -1], ["nf", 0.25]]), ("y0", [["f", -0.25], ["i", 1], ["n32", 0.5]]), ("a", [["f", 1.5], ["i", 2], ["f", -0.5]]), ("w", [["f", 2.0], ["i", 3], ["nf", -1.5]])],
    "SG": [("x0", [["f", 0.5], ["i", -1], ["n32", 0.25]]), ("y0", [["f", -0.25], ["i", 1], ["nf", 0.5]]), ("a", [["f", 1.5], ["i", 2], ["f", -0.5]]), ("w", [["f", 2.0], ["i", 3], ["f", -1.5]]), ("p", [["f", 1.0], ["i", 2], ["f", 1.5]])],
    "Z": [("a", [["f", 1.5], ["i", 2], ["nf", -0.5]])],
    "K": [("c", [["f", 1.5], ["i", 2], ["nf", -0.5]])],
    "KC": [("c", [["c", 1.5, -1.0], ["c", 0.0, 2.0], ["f", 0.5]])],
    "WR": [("x0", [["f", 0.5], ["i", -1], ["nf", 0.25]]), ("y0", [["f", -0.25], ["i", 1], ["n32", 0.5]]), ("wx", [["f", 3.0], ["i", 2], ["f", -4.5]]), ("wy", [["f", 2.0], ["i", 4], ["nf", 1.25]])],
    "WC": [("x0", [["f", 0.5], ["i", -1], ["nf", 0.25]]), ("y0", [["f", -0.25], ["i", 1], ["n32", 0.5]]), ("r", [["f", 1.75], ["i", 1], ["f", -2.75]])],
}


def cases(env):
    import tours
    depth = 3 if env.thorough else 2
    for c in CLS:
        ps = CLS[c]
        alpha = [[i, p, v] for i in (0, 1) for p in range(len(ps)) for v in range(3)]
        word = tours.de_bruijn(alpha, depth)
        for seg in tours.segments(word, 150, depth - 1):
            yield {"cls": c, "kind": "tour", "ops": seg}
    for c in CLS:
        for p in range(len(CLS[c])):
            for u, s in ((1.0, 1.0), (1e-12, 1e-9), (1e-6, 1e12), (1e9, 1e-12)):
                yield {"cls": c, "kind": "units", "p": p, "u": u, "s": s, "ops": list(range(3))}
    k = 0
    for c in CLS:
        for p in range(len(CLS[c])):
            n = (3 if p == 0 else 2) + (1 if env.thorough else 0)
            for seq in itertools.product("DPSEABab", repeat=n):
                # D build derived; P/S evaluate A on a plane/at a point; E evaluate derived; A/a assign values 1/2 to A; B/b to B
                if "A" not in seq and "a" not in seq and "B" not in seq and "b" not in seq:
                    continue
                if "E" in seq and "D" not in seq[:seq.index("E")] or seq.count("D") > 1:
                    continue
                if seq[-1] in "PSE" or seq.count("B") + seq.count("b") > 1:      # every history ends with evaluations anyway
                    continue
                k += 1
                if k % 2 == (1 if env.f64 else 0) or env.thorough:               # the two precisions share the histories
                    yield {"cls": c, "kind": "fresh", "p": p, "ops": list(seq)}


def scaled(c, p, value, u, s):
    """A value in other units (u: of length, s: of amplitude)."""
    f = {"a": s, "c": s, "p": 1.0}.get(CLS[c][p][0], u)
    x = [value[0] if value[0] in "fc" else "f"] + [q * f for q in value[1:]]
    return x


def val(v):
    import numpy as np, ref
    return np.float32(v[1]) if v[0] == "n32" else ref.num(v)


def plain(v):
    return ["f", v[1]] if v[0] == "n32" else v


class Model(object):
    """The boring reference: a record of the current parameter values."""

    def __init__(self, c, first):
        self.c, self.v = c, [p[1][first] for p in CLS[c]]

    def expr(self):
        import ref
        if self.c in ("K", "KC"):
            v = plain(self.v[0])
            return ["K", ["c", v[1], 0.0] if self.c == "KC" and v[0] != "c" else (["f", float(v[1])] if self.c == "K" else v)]
        n = [float(ref.num(plain(v))) for v in self.v]
        if self.c == "HG": return ["HG"] + n + [1, 2]
        if self.c == "Z": return ["Z", n[0], 4.0, 3, -1, True, False]
        return [self.c] + n


def make(c, m):
    import pySLM2 as S
    v = [val(x) for x in m.v]
    if c == "HG": return S.HermiteGaussian(*v, n=1, m=2)
    if c == "SG": return S.SuperGaussian(*v)
    if c == "Z": return S.Zernike(v[0], 4.0, n=3, m=-1)
    if c in ("K", "KC"): return S.ConstantProfile(v[0])
    if c == "WR": return S.RectangularWindowRectangle(*v)
    if c == "WC": return S.RectangularWindowCircular(*v)


def points():
    import numpy as np
    X, Y = np.meshgrid([-1.9, -0.8, 0.0, 0.4, 1.3, 2.6], [-1.6, 0.3, 0.9, 2.1])
    return X, Y


def getters(env, objs, models):
    import numpy as np, ref
    for who, o, m in zip("AB", objs, models):
        for (name, _), v in zip(CLS[m.c], m.v):
            want = ref.num(plain(v))
            got = complex(np.asarray(getattr(o, name)))
            want = complex(np.asarray(want).astype(env.cplx))      # the value as the configured precision holds it
            env.check(abs(got - want) <= (4e-7 if not env.f64 else 1e-15) * abs(want), lambda: "%s.%s reads %r after being assigned %r" % (who, name, got, want))


def derive(objs):
    a, b = objs
    return [a.shift(0.5, -0.25).rescale_x(2), a * b + 1.5, (b - a).rotate(0.5)]


def derived_exprs(models):
    a, b = [m.expr() for m in models]
    return [["rx", ["shift", a, ["f", 0.5], ["f", -0.25]], ["i", 2]], ["+", ["*", a, b], ["f", 1.5]], ["rot", ["-", b, a], ["f", 0.5]]]


def units(env, case):
    """All words of two assignments of close, far, opposite and zero values, in one system of units."""
    import numpy as np, ref
    c, p, u, s = case["cls"], case["p"], case["u"], case["s"]
    X, Y = points()
    X, Y = X * u, Y * u
    name, vs = CLS[c][p]
    first = plain(vs[0])
    near = [first[0]] + [q * 1.003 for q in first[1:]]
    tiny = [first[0]] + [q * (1 + 2e-5) for q in first[1:]]
    alphabet = [scaled(c, p, plain(v), u, s) for v in (vs[0], vs[1], vs[2], near, tiny)]
    if name in ("x0", "y0", "a", "c"): alphabet += [[a[0]] + [-q for q in a[1:]] for a in alphabet[:1]] + [[alphabet[0][0]] + [0.0] * (len(alphabet[0]) - 1)]
    for first_value in case["ops"]:
        env.failed_at = first_value
        models = [Model(c, first_value), Model(c, 1)]
        for m in models: m.v = [scaled(c, k, plain(v), u, s) for k, v in enumerate(m.v)]
        if c == "KC":       # constructed complex
            for m in models: m.v = [v if v[0] == "c" else ["c", v[1], 0.0] for v in m.v]
        Z = 4.0 * u
        if c == "Z":
            import pySLM2 as S
            objs = [S.Zernike(val(m.v[0]), Z, n=3, m=-1) for m in models]
            expr = lambda m: ["Z", float(m.v[0][1]), Z, 3, -1, True, False]
        else:
            objs = [make(c, m) for m in models]
            expr = lambda m: m.expr()
        d = objs[0].shift(0.5 * u, -0.25 * u)
        for w in itertools.product(range(len(alphabet)), repeat=2):
            for v in w:
                models[0].v[p] = alphabet[v]
                setattr(objs[0], name, val(alphabet[v]))
                what = "%s in units %g, %g: %s = %s in %s" % (c, u, s, name, alphabet[v], w)
                getters(env, objs, models)
                r = ref.compare_profile(env, objs[0], expr(models[0]), X, Y, what)
                ref.compare_profile(env, d, ["shift", expr(models[0]), ["f", 0.5 * u], ["f", -0.25 * u]], X, Y, "shifted " + what)
                env.outcome_array(r)
            ref.compare_profile(env, objs[1], expr(models[1]), X, Y, "the other " + what)
            env.state((c, name, u, s, first_value, w))


def run_case(env, case):
    import numpy as np, ref
    c = case["cls"]
    models = [Model(c, 0), Model(c, 1)]
    objs = [make(c, m) for m in models]
    X, Y = points()
    der = None

    def compare(i, what):
        return ref.compare_profile(env, objs[i], models[i].expr(), X, Y, "%s of %s %s" % ("AB"[i], c, what))

    if case["kind"] == "units": return units(env, case)
    if case["kind"] == "tour":
        der = derive(objs)
        for k, (i, p, v) in enumerate(case["ops"]):
            env.failed_at = k
            models[i].v[p] = CLS[c][p][1][v]
            setattr(objs[i], CLS[c][p][0], val(models[i].v[p]))
            what = "after step %d: %s.%s = %s" % (k, "AB"[i], CLS[c][p][0], models[i].v[p])
            env.state((c, [m.v for m in models]))
            compare(0, what); compare(1, what)
            for d, e in zip(der, derived_exprs(models)):
                env.outcome_array(ref.compare_profile(env, d, e, X, Y, "derived profile %s of %s %s" % (e, c, what)))
            getters(env, objs, models)
        env.sample({"class": c, "assignments": case["ops"][:4]})
        return
    p = case["p"]
    name, values = CLS[c][p]
    hist = ""
    for k, op in enumerate(case["ops"]):
        env.failed_at = k
        hist += op
        env.step()
        if op == "D":
            der = derive(objs)
        elif op == "P":
            compare(0, "history %s" % hist)
        elif op == "S":
            ref.compare_profile(env, objs[0], models[0].expr(), 0.4, 0.3, "A of %s at a point, history %s" % (c, hist))
        elif op == "E":
            ref.compare_profile(env, der[1], derived_exprs(models)[1], X, Y, "derived of %s, history %s" % (c, hist))
        else:
            i = 0 if op in "Aa" else 1
            models[i].v[p] = values[(1 if op in "AB" else 2) if i == 0 else (0 if op == "B" else 2)]
            setattr(objs[i], name, val(models[i].v[p]))
        env.state((c, name, hist))
    compare(0, "finally, history %s" % hist); compare(1, "finally, history %s" % hist)
    if der is not None:
        env.outcome_array(ref.compare_profile(env, der[1], derived_exprs(models)[1], X, Y, "derived of %s finally, history %s" % (c, hist)))
    getters(env, objs, models)
