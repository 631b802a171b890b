"""P21: a Vialux DMD shows exactly the last loaded frames, after any load history."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of controller operation histories (all words up to a length of loads, trigger edges and re-initialization) on the real controller driving a simulated device behind the vendor API, against a reference of what the mirrors must show"
BOUNDS = {
    "quick": "every word of length 5 over {2 single loads, loads of 1, 2 and 3 frames, rising edge, falling edge, close and re-initialize} x {normal, inverted} x {library keeps / forgets the freed sequence}, device memory for 7 frames; every word of length 3 over 9 loads that repeat frame objects, views or a reused buffer, followed by 4 triggers; every word of length 4 over 8 operations that load the same two pictures again and again; every word of length 4 over 10 operations on two controllers of two devices; every 3x2 frame as single load and every pair of 3x2 frames as a sequence; 7 memory layouts; 24 loads in a row",
    "thorough": "every word of length 7"}
RULE = "state = (operation word, device state); transition = one controller operation or trigger edge followed by the comparison of the mirrors; an outcome is a distinct picture history"
ASSUMPTIONS = ["the device simulator (devsim.AlpDevice) states what the vendor documentation says about projection mode, trigger edge, uninterrupted binary mode, memory and data layout; no hardware is available here"]
SHARDS = 8
DTYPES = ("float32",)
WORD = ["s0", "s1", "m1", "m2", "m3", "R", "F", "C"]
# loads that repeat frame objects, views of one frame, and a buffer that the caller overwrites between loads
SHARE = ["s0", "m2", "dd", "dgd", "ddg", "dc", "dv", "b1", "bb", "R"]
# loads of the same two pictures over and over: in the same or another place of the list, alone, before and after closing
FIXED = ["sA", "sB", "mA", "mAB", "mBA", "mAA", "R", "C"]
PAIR = [w + o for w in "AB" for o in ("s0", "m2", "m3", "R", "C")]


def cases(env):
    n = 7 if env.thorough else 5
    for inv, stale in itertools.product((False, True), repeat=2):
        for pre in itertools.product(WORD, repeat=n - 3):
            yield {"kind": "words", "invert": inv, "stale": stale, "pre": list(pre), "ops": [list(w) for w in itertools.product(WORD, repeat=3)]}
        yield {"kind": "long", "invert": inv, "stale": stale, "ops": ["m3", "R", "m3", "s0", "m2", "R", "R", "R"] * 3 + ["C"] + ["s0", "s1"] * 6 + ["m3", "R", "R", "R", "R", "C", "m2", "R"]}
        for pre in SHARE:
            yield {"kind": "words", "invert": inv, "stale": stale, "pre": [pre], "ops": [list(w) + ["R"] * 4 for w in itertools.product(SHARE, repeat=3 if env.thorough else 2)]}
        for pre in itertools.product(FIXED, repeat=2 if env.thorough else 1):
            yield {"kind": "words", "invert": inv, "stale": stale, "pre": list(pre), "ops": [list(w) + ["R"] * 3 for w in itertools.product(FIXED, repeat=3)]}
        for pre in itertools.product(PAIR, repeat=2 if env.thorough else 1):
            yield {"kind": "pair", "invert": inv, "stale": stale, "pre": list(pre), "ops": [list(w) for w in itertools.product(PAIR, repeat=3)]}
        for c in range(0, 64, 8):
            yield {"kind": "frames", "invert": inv, "stale": stale, "ops": list(range(c, c + 8))}


_cache = {}


def controller(invert, stale, N):
    import devsim
    key = (invert, stale, N)
    if key not in _cache:
        dev = devsim.AlpDevice(*N)
        _cache[key] = (dev, devsim.alp_module(dev, stale))
    dev, mod = _cache[key]
    dev.allocated = False
    dev.power_on()
    devsim.HUB.reset()
    if _cache.get("installed") is not mod:
        _cache["module"] = devsim.install(alp=mod, lux=None, reimport=True)
        _cache["installed"] = mod
    c = _cache["module"].ALPController(invert=invert)
    return dev, c


def controllers(invert, stale, N):
    """Two controllers on two devices of one vendor library; the second has the other inversion half of the time."""
    import devsim
    key = ("pair", stale, N)
    if key not in _cache:
        devs = [devsim.AlpDevice(*N), devsim.AlpDevice(*N)]
        mods = [devsim.alp_module(d, stale) for d in devs]
        made, classes = [], [m.ALP4 for m in mods]
        mods[0].ALP4 = lambda *a, **k: (made.append(1), classes[(len(made) - 1) % 2](*a, **k))[1]
        mods[0].made = made
        _cache[key] = (devs, mods[0])
    devs, mod = _cache[key]
    del mod.made[:]
    for d in devs:
        d.allocated = False
        d.power_on()
    devsim.HUB.reset()
    if _cache.get("installed") is not mod:
        _cache["module"] = devsim.install(alp=mod, lux=None, reimport=True)
        _cache["installed"] = mod
    return [(d, _cache["module"].ALPController(invert=bool(i))) for d, i in zip(devs, (invert, not invert))]


def shared(N, k, kind, buf):
    """Frame lists of one load with repeated objects, equal copies, views of one frame, or the caller's buffer."""
    import numpy as np
    d, g = frames(N, k, 2)
    if kind == "dd": return [d, d]
    if kind == "dgd": return [d, g, d]
    if kind == "ddg": return [d, d, g]
    if kind == "dc": return [d, d.copy(), g]
    if kind == "dv": return [d, d[::-1], d[:, ::-1]]
    buf[...] = d                                       # the same array object as in the load before, with new contents
    return [buf] if kind == "b1" else [buf, g]


def frames(N, k, n):
    """n distinct asymmetric frames of load number k in rotating memory layouts."""
    import numpy as np
    from props import p18
    out = []
    for i in range(n):
        f = np.array([[((3 * x + 5 * y + x * y + 7 * k + 2 * i) * (i + 2) % 11) % 3 == 0 for x in range(N[0])] for y in range(N[1])])
        out.append(p18.lay(f, p18.LAYOUTS[(k + i) % len(p18.LAYOUTS)]))
    return out


def fixed(N, name):
    """A new array with always the same picture."""
    return frames(N, 3 if name == "A" else 6, 1)[0]


class Run(object):
    def __init__(self, env, invert, stale, N=(6, 4), made=None):
        import devsim
        import numpy as np
        self.env, self.N, self.invert = env, N, invert
        self.hub = devsim.HUB
        self.dev, self.c = made or controller(invert, stale, N)
        self.c.initialize()
        self.buf = np.zeros((N[1], N[0]), bool)
        self.loads, self.want, self.count, self.trail = 0, None, 0, []

    def shows(self, f, what):
        import numpy as np
        m = self.dev.shown
        f = np.asarray(f)
        want = ~f if self.invert else f
        self.env.check(isinstance(m, np.ndarray) and m.shape == want.shape and np.array_equal(m, want), lambda: "%s: the mirrors show %s, expected %s" % (
            what, m.astype(int).tolist() if isinstance(m, np.ndarray) else m, want.astype(int).tolist()))

    def load(self, fs, single, what):
        import numpy as np
        keep = [f.copy() for f in fs]
        if single: self.c.load_single(fs[0])
        else: self.c.load_multiple(list(fs))
        self.loads += 1
        self.want, self.single, self.count = keep, single, 0
        d = self.dev
        self.env.check(all(np.array_equal(a, b) for a, b in zip(fs, keep)), what + ": changed the frames passed in")
        self.env.check(d.running in d.seqs, what + ": nothing is being projected")
        self.env.check(len(d.seqs) == 1, lambda: "%s: %d sequences are held on the device" % (what, len(d.seqs)))
        s = d.seqs[d.running]
        self.env.check(len(s["data"]) == len(fs), lambda: "%s: the sequence has %d pictures" % (what, len(s["data"])))
        self.env.check(s["bin"] == "ALP_BIN_UNINTERRUPTED", what + ": not in uninterrupted binary mode")
        if single:
            self.shows(keep[0], what)
        elif len(fs) > 1:
            self.env.check(s["time"] == 44 and s["timed_for"] == s["bin"], lambda: "%s: picture time %s, minimum 44" % (what, s["time"]))
            self.env.check(d.mode == "ALP_SLAVE", what + ": several frames run without trigger")

    def op(self, op, what):
        d = self.dev
        if op[1:2] in ("A", "B"): self.load([fixed(self.N, c) for c in op[1:]], op[0] == "s", what)
        elif op[0] == "s": self.load(frames(self.N, self.loads * 2 + int(op[1]), 1), True, what)
        elif op[0] == "m": self.load(frames(self.N, self.loads, int(op[1])), False, what)
        elif op[0] in "db": self.load(shared(self.N, self.loads, op, self.buf), op == "b1", what)
        elif op == "C":
            self.c.close()
            self.env.check(not d.allocated and d.running is None and not d.seqs, what + ": close left the device, a projection or a sequence allocated")
            self.c.initialize()
            self.want = None
        elif op in ("R", "F"):
            d.trigger("ALP_EDGE_RISING" if op == "R" else "ALP_EDGE_FALLING")
            if op == "R": self.count += 1
        if self.want is not None:
            if self.single: self.shows(self.want[0], what)
            elif self.count: self.shows(self.want[(self.count - 1) % len(self.want)], what + " (trigger %d after loading %d frames)" % (self.count, len(self.want)))
        self.env.check(not self.hub.misuse, lambda: "%s: %s" % (what, self.hub.misuse))
        self.env.step()
        self.trail.append(op)


def run_case(env, case):
    import numpy as np
    if case["kind"] == "frames":
        for a in case["ops"]:
            for b in range(64):
                r = Run(env, case["invert"], case["stale"], (3, 2))
                fa, fb = [np.array([(v >> k) & 1 for k in range(6)], bool).reshape(2, 3) for v in (a, b)]
                r.load([fa], True, "single load of frame %d" % a)
                r.load([fb, fa], False, "load of frames %d and %d" % (b, a))
                for k in range(3):
                    r.op("R", "trigger")
                env.step(2)
                env.state((case["invert"], case["stale"], a, b)); env.outcome((a, b, case["invert"]))
        return
    if case["kind"] == "pair":
        for k, w in enumerate(case["ops"]):
            env.failed_at = k
            w = case["pre"] + w
            made = controllers(case["invert"], case["stale"], (6, 4))
            runs = [Run(env, v, case["stale"], made=m) for v, m in zip((case["invert"], not case["invert"]), made)]
            for i, op in enumerate(w + ["AR", "BR"]):
                r = runs["AB".index(op[0])]
                r.op(op[1:], "operation %d of %s on two devices" % (i, w))
                o = runs["BA".index(op[0])]
                if o.want is not None and (o.single or o.count):
                    o.shows(o.want[0 if o.single else (o.count - 1) % len(o.want)], "the other device after operation %d of %s" % (i, w))
            env.state((case["invert"], case["stale"], "pair", w)); env.outcome((case["invert"], "pair", w))
            for r in runs:
                r.c.close()
                env.check(not r.dev.allocated and not r.dev.seqs, "after %s on two devices: close left the device or a sequence allocated" % w)
        return
    words = [case["pre"] + w for w in case["ops"]] if case["kind"] == "words" else [case["ops"]]
    for k, w in enumerate(words):
        env.failed_at = k
        r = Run(env, case["invert"], case["stale"])
        for i, op in enumerate(w):
            r.op(op, "operation %d of %s" % (i, w))
        env.state((case["invert"], case["stale"], w)); env.outcome((case["invert"], w))
        r.c.close()
        env.check(not r.dev.allocated and r.dev.running is None and not r.dev.seqs, "after %s: close left the device, a projection or a sequence allocated" % w)
        env.check(not r.hub.misuse, lambda: "after %s: %s" % (w, r.hub.misuse))
    env.sample({"words": words[:3]})
