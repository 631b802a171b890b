"""P22: a Visitech DMD shows exactly the last loaded frames, after any load history."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of controller operation histories (all words up to a length of loads, triggers from every source and re-initialization) on the real controller driving a simulated device that interprets the uploaded sequencer program, against a reference of what the mirrors must show"
BOUNDS = {
    "quick": "every word of length 5 over {2 single loads, loads of 1, 2 and 3 frames, software / electrical / optical trigger, falling edge, re-initialize} x {normal, inverted}; every word of length 3 over 9 loads that repeat frame objects, views or a reused buffer, followed by 4 triggers; every word of length 4 over 8 operations that load the same two pictures again and again; every word of length 4 over 10 operations on two controllers of two devices; every 3x2 frame as single load and every pair of 3x2 frames as a sequence; 7 memory layouts; long histories up to 12 frames",
    "thorough": "every word of length 6 and every word of length 7 without the optical trigger and the falling edge"}
RULE = "state = (operation word, device state); transition = one controller operation or trigger followed by the comparison of the mirrors; an outcome is a distinct picture history"
ASSUMPTIONS = ["the device simulator (devsim.LuxDevice) interprets sequencer programs (loops, image load, mirror reset, trigger wait, registers, RUN and RESET) as the vendor library documents them; no hardware is available here"]
SHARDS = 8
DTYPES = ("float32",)
SHARE = ["s0", "m2", "dd", "dgd", "ddg", "dc", "dv", "b1", "bb", "T"]
FIXED = ["sA", "sB", "mA", "mAB", "mBA", "mAA", "T", "I"]
PAIR = [w + o for w in "AB" for o in ("s0", "m2", "m3", "T", "I")]
WORD = ["s0", "s1", "m1", "m2", "m3", "T", "E", "O", "N", "I"]


def cases(env):
    for inv in (False, True):
        for n, word in ((6, WORD), (7, ["s0", "s1", "m1", "m2", "m3", "T", "E", "I"])) if env.thorough else ((5, WORD),):
            for pre in itertools.product(word, repeat=n - 3):
                yield {"kind": "words", "invert": inv, "pre": list(pre), "ops": [list(w) for w in itertools.product(word, repeat=3)]}
        yield {"kind": "long", "invert": inv, "ops": ["m9", "T", "E", "m3", "T", "T", "T", "T", "s0", "T", "m2", "E", "E", "O"] * 2 + ["m9"] + ["T", "E", "N"] * 10 + ["I", "m2", "T", "s1", "T", "m3"] + ["T"] * 8}
        for pre in SHARE:
            yield {"kind": "words", "invert": inv, "pre": [pre], "ops": [list(w) + ["T", "E", "O", "T"] for w in itertools.product(SHARE, repeat=3 if env.thorough else 2)]}
        for pre in itertools.product(FIXED, repeat=2 if env.thorough else 1):
            yield {"kind": "words", "invert": inv, "pre": list(pre), "ops": [list(w) + ["T", "E", "O"] for w in itertools.product(FIXED, repeat=3)]}
        for pre in itertools.product(PAIR, repeat=2 if env.thorough else 1):
            yield {"kind": "pair", "invert": inv, "pre": list(pre), "ops": [list(w) for w in itertools.product(PAIR, repeat=3)]}
        for c in range(0, 64, 8):
            yield {"kind": "frames", "invert": inv, "ops": list(range(c, c + 8))}


_cache = {}


def controller(invert, N):
    import devsim
    if N not in _cache:
        dev = devsim.LuxDevice(*N)
        _cache[N] = (dev, devsim.lux_module(dev))
    dev, mod = _cache[N]
    dev.__init__(*N)
    devsim.HUB.reset()
    if _cache.get("installed") is not mod:
        _cache["module"] = devsim.install(alp=None, lux=mod, reimport=True)
        _cache["installed"] = mod
    return dev, _cache["module"].LuxbeamController("10.0.0.1", invert=invert)


def controllers(invert, N):
    """Two controllers on two devices at two addresses; the second has the other inversion."""
    import devsim
    key = ("pair", N)
    if key not in _cache:
        devs = [devsim.LuxDevice(*N), devsim.LuxDevice(*N)]
        mods = [devsim.lux_module(d) for d in devs]
        classes = {"10.0.0.1": mods[0].Luxbeam, "10.0.0.2": mods[1].Luxbeam}
        mods[0].Luxbeam = lambda dmd_ip, *a, **k: classes[dmd_ip](dmd_ip, *a, **k)
        _cache[key] = (devs, mods[0])
    devs, mod = _cache[key]
    for d in devs:
        d.__init__(*N)
    devsim.HUB.reset()
    if _cache.get("installed") is not mod:
        _cache["module"] = devsim.install(alp=None, lux=mod, reimport=True)
        _cache["installed"] = mod
    return [(d, _cache["module"].LuxbeamController(ip, invert=i)) for d, ip, i in zip(devs, ("10.0.0.1", "10.0.0.2"), (invert, not invert))]


class Run(object):
    def __init__(self, env, invert, N=(6, 4), made=None):
        import devsim
        import numpy as np
        self.env, self.N, self.invert, self.hub = env, N, invert, devsim.HUB
        self.dev, self.c = made or controller(invert, N)
        self.buf = np.zeros((N[1], N[0]), bool)
        self.c.initialize()
        self.loads, self.want, self.count = 0, None, 0

    def load(self, fs, single, what):
        import numpy as np
        keep = [f.copy() for f in fs]
        if single: self.c.load_single(fs[0])
        else: self.c.load_multiple(list(fs))
        self.loads += 1
        self.want, self.single, self.count = keep, single, 0
        self.env.check(all(np.array_equal(a, b) for a, b in zip(fs, keep)), what + ": changed the frames passed in")

    def op(self, op, what):
        import numpy as np
        from props import p21
        d = self.dev
        if op[1:2] in ("A", "B"): self.load([p21.fixed(self.N, c) for c in op[1:]], op[0] == "s", what)
        elif op[0] == "s": self.load(p21.frames(self.N, self.loads * 2 + int(op[1]), 1), True, what)
        elif op[0] == "m": self.load(p21.frames(self.N, self.loads, int(op[1])), False, what)
        elif op[0] in "db": self.load(p21.shared(self.N, self.loads, op, self.buf), op == "b1", what)
        elif op == "I":
            self.c.initialize()
            self.want = None
        elif op == "T":
            e = d.edges
            self.c.fire_software_trigger()
            self.env.check(d.edges == e + 1 and d.sync == 0, lambda: "%s: %d pulses, line left at %d" % (what, d.edges - e, d.sync))
            self.count += 1
        elif op == "N": d.trigger("ELECTRICAL", "falling")
        else:
            d.trigger({"E": "ELECTRICAL", "O": "OPTICAL"}[op], "rising")
            self.count += 1
        self.shows(what)
        self.env.check(not self.hub.misuse, lambda: "%s: %s" % (what, self.hub.misuse))
        self.env.step()

    def shows(self, what):
        import numpy as np
        if self.want is not None:
            f = self.want[0 if self.single else self.count % len(self.want)]
            want = ~f if self.invert else f
            m = self.dev.mirrors
            self.env.check(isinstance(m, np.ndarray) and m.shape == want.shape and np.array_equal(m, want), lambda: "%s (%d frames, %d triggers since): the mirrors show %s, expected %s" % (
                what, len(self.want), self.count, m.astype(int).tolist() if isinstance(m, np.ndarray) else m, want.astype(int).tolist()))


def run_case(env, case):
    import numpy as np
    if case["kind"] == "frames":
        for a in case["ops"]:
            for b in range(64):
                r = Run(env, case["invert"], (3, 2))
                fa, fb = [np.array([(v >> k) & 1 for k in range(6)], bool).reshape(2, 3) for v in (a, b)]
                r.load([fa], True, "single load of frame %d" % a)
                r.op("T", "trigger after a single load of frame %d" % a)
                r.load([fb, fa], False, "load of frames %d and %d" % (b, a))
                for k in range(3):
                    r.op("ETO"[k], "trigger %d after loading frames %d and %d" % (k, b, a))
                env.step(2)
                env.state((case["invert"], a, b)); env.outcome((a, b, case["invert"]))
        return
    if case["kind"] == "pair":
        for k, w in enumerate(case["ops"]):
            env.failed_at = k
            w = case["pre"] + w
            runs = [Run(env, v, made=m) for v, m in zip((case["invert"], not case["invert"]), controllers(case["invert"], (6, 4)))]
            for i, op in enumerate(w + ["AT", "BT"]):
                runs["AB".index(op[0])].op(op[1:], "operation %d of %s on two devices" % (i, w))
                runs["BA".index(op[0])].shows("the other device after operation %d of %s" % (i, w))
            env.state((case["invert"], "pair", w)); env.outcome((case["invert"], "pair", w))
        return
    words = [case["pre"] + w for w in case["ops"]] if case["kind"] == "words" else [case["ops"]]
    for k, w in enumerate(words):
        env.failed_at = k
        r = Run(env, case["invert"])
        for i, op in enumerate(w):
            r.op(op, "operation %d of %s" % (i, w))
        env.state((case["invert"], w)); env.outcome((case["invert"], w))
    env.sample({"words": words[:3]})
