"""P23: controllers touch the device only while initialized, and survive faults."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive fault injection: every single device command, and every pair over two attempts, of every operation after every prefix is failed on the real controllers driving simulated devices; exhaustive enumeration of operations in every life-cycle state"
BOUNDS = {
    "quick": "both controllers, normal and inverted, both library variants: every public operation and every pair of them in 4 kinds of uninitialized state (new, initialization failed at each command, closed, re-initialization failed); every command of initialize, of loads of 1, 2 and 3 frames after 6 prefixes, of queries, triggers and close failed before or after taking effect with 6 classes of error, followed by the same load, another load or the one before; every pair of failing commands over two attempts; missing libraries",
    "thorough": "also every triple of failing commands over three attempts and 12 prefixes"}
RULE = "state = (controller, life-cycle state, operation, failing commands); transition = one operation under one fault assignment; an outcome is a distinct (operation, failing command, exception)"
ASSUMPTIONS = ["the device simulators of devsim.py; a failing command has either no effect or its full effect, and memory allocation and device opening of the Vialux library have none when they fail"]
SHARDS = 8
DTYPES = ("float32",)
LOADS = ["s0", "m2", "m3"]
PREFIX = [[], ["s1"], ["m3"], ["m2", "T"], ["m3", "T", "s1"], ["s0", "m2", "T", "T", "T"]]
MORE = [["m3", "T", "m3"], ["s0", "s1", "s0"], ["m1"], ["m3", "m2", "s1", "T"], ["m2", "m2"], ["s1", "T", "m1", "T"]]


def cases(env):
    T = env.thorough
    for kind, inv, stale in [("alp", i, s) for i in (False, True) for s in (False, True)] + [("lux", i, False) for i in (False, True)]:
        base = {"dev": kind, "invert": inv, "stale": stale}
        for st in ("new", "initfail", "closed", "reinitfail"):
            if kind == "alp" or st in ("new", "initfail"):
                yield dict(base, kind="refuse", state=st)
        for p in PREFIX + (MORE if T else []):
            for l in LOADS:
                for again in (LOADS if T else [l, LOADS[(LOADS.index(l) + 1) % 3]]) + (["back"] if p else []):     # back: what was shown before the failed load
                    yield dict(base, kind="load", prefix=p, load=l, again=again, depth=3 if T and len(p) < 2 else 2)
        yield dict(base, kind="init")
        yield dict(base, kind="query")
        yield dict(base, kind="close")
    for a, b in itertools.product((False, True), repeat=2):
        yield {"kind": "missing", "alp": a, "lux": b, "dev": "none"}


class Rig(object):
    """One fresh controller with its device, either kind, behind one interface."""

    def __init__(self, env, case, initialize=True):
        import devsim
        from props import p21, p22
        self.env, self.case, self.hub = env, case, devsim.HUB
        self.N = (6, 4)
        self.alp = case["dev"] == "alp"
        self.dev, self.c = p21.controller(case["invert"], case["stale"], self.N) if self.alp else p22.controller(case["invert"], self.N)
        self.loads, self.shown, self.count = 0, None, 0
        if initialize:
            self.c.initialize()

    def frames(self, op):
        from props import p21
        self.loads += 1
        return p21.frames(self.N, self.loads + (7 if op == "s1" else 0), 1 if op[0] == "s" else int(op[1]))

    def attempt(self, f, faults, what):
        """Run f with faults armed: the exception, or None; the number of commands it issued."""
        self.hub.arm(faults)
        err = None
        try:
            f()
        except Exception as e:
            err = e
        n = self.hub.n
        self.hub.arm()
        self.env.step()
        self.env.check(not self.hub.misuse, lambda: "%s: %s" % (what, self.hub.misuse))
        return err, n

    def load(self, op, fs=None):
        fs = self.frames(op) if fs is None else fs
        if op[0] == "s": self.c.load_single(fs[0])
        else: self.c.load_multiple(list(fs))
        self.current, self.single = fs, op[0] == "s"

    def mirrors(self):
        return self.dev.shown if self.alp else self.dev.mirrors

    def trigger(self):
        if self.alp: self.dev.trigger("ALP_EDGE_RISING")
        else: self.c.fire_software_trigger()

    def verify(self, what):
        """The device shows exactly the frames of the load that just succeeded, over two cycles."""
        import numpy as np
        fs = self.current
        for k in range(2 * len(fs) + 2):
            if not (self.alp and not self.single and k == 0):     # a Vialux sequence starts at the first trigger
                i = 0 if self.single else (k - 1) % len(fs) if self.alp else k % len(fs)
                want = ~fs[i] if self.case["invert"] else fs[i]
                m = self.mirrors()
                self.env.check(isinstance(m, np.ndarray) and np.array_equal(m, want), lambda: "%s: after %d triggers the mirrors show %s, expected %s" % (what, k, m.astype(int).tolist() if isinstance(m, np.ndarray) else m, want.astype(int).tolist()))
            self.trigger()
        if self.alp:
            self.env.check(len(self.dev.seqs) == 1, lambda: "%s: %d sequences are held on the device" % (what, len(self.dev.seqs)))
        self.env.check(not self.hub.misuse, lambda: "%s: %s" % (what, self.hub.misuse))

    def ops(self):
        f = self.frames("m2")
        o = {"load_single": lambda: self.c.load_single(f[0]), "load_multiple": lambda: self.c.load_multiple(f), "load_sequence": lambda: self.c.load_sequence(f),
             "Nx": lambda: self.c.Nx, "Ny": lambda: self.c.Ny, "number_image": lambda: self.c.number_image(3)}
        if not self.alp:
            o["fire_software_trigger"] = lambda: self.c.fire_software_trigger()
        return o

    def state(self):
        d = self.dev
        return (d.allocated, d.running, sorted(d.seqs)) if self.alp else (d.run, d.reset, sorted(d.images), dict(d.regs), d.program is None, d.edges)

    def refused(self, what, names=None):
        env = self.env
        env.check(self.c.is_initialized() is False, what + ": is_initialized is not False")
        for n in names or self.ops():
            before, state = len(self.hub.log), self.state()
            err, _ = self.attempt(self.ops()[n], None, what)
            env.check(isinstance(err, Exception), lambda: "%s: %s was accepted" % (what, n))
            env.check(len(self.hub.log) == before and self.state() == state, lambda: "%s: %s reached the device with %s" % (what, n, self.hub.log[before:]))
            env.check(self.c.is_initialized() is False, lambda: "%s: is_initialized is not False after %s" % (what, n))
            env.state((self.case, what, n)); env.outcome((self.case["dev"], what, n, "refused"))


def points(rig_log, n, alp, classes=1):
    """(command number, kind) of all faults of an operation that issued rig_log[-n:]; kind is before/after, with the class of error if not the first."""
    out = []
    for k in range(n):
        for c in range(classes):
            c = "/%d" % c if c else ""
            out.append((k, "before" + c))
            if not (alp and rig_log[k][0] in ("SeqAlloc", "Initialize", "ALP4")):
                out.append((k, "after" + c))
    return out


def run_case(env, case):
    if case["kind"] == "missing":
        return missing(env, case)
    {"refuse": refuse, "load": load, "init": init, "query": query, "close": close}[case["kind"]](env, case)
    env.sample(case)


def commands(env, case, prefix, f):
    """Commands that f(rig) issues without faults after the prefix."""
    r = Rig(env, case, prefix is not None)
    play(r, prefix or [])
    at = len(r.hub.log)
    err, n = r.attempt(lambda: f(r), None, "fault-free run")
    if err is not None:
        raise err
    return r.hub.log[at:]


def play(r, prefix):
    for p in prefix:
        if p == "T": r.trigger()
        else: r.load(p)


def broken(env, case, where):
    """Rigs in every variant of an uninitialized state, with a name."""
    if where == "new":
        yield Rig(env, case, False), "new"
    elif where == "closed":
        for p in PREFIX:
            r = Rig(env, case); play(r, p); r.c.close()
            yield r, "closed after %s" % p
    else:
        log = commands(env, case, None, lambda r: r.c.initialize())
        for k, how in points(log, len(log), case["dev"] == "alp", 2):
            r = Rig(env, case, where == "reinitfail")
            if where == "reinitfail":
                r.c.close()
            err, _ = r.attempt(r.c.initialize, {k: how}, where)
            env.check(isinstance(err, Exception), "initialize with a failing command %d (%s, %s) raised nothing" % (k, log[k][0], how))
            yield r, "%s at command %d (%s)" % (where, k, how)


def refuse(env, case):
    n = len(list(broken(env, case, case["state"])))
    names = list(Rig(env, case, False).ops())
    for i in range(n):
        for a, b in itertools.product(names, repeat=2):
            r, what = next(itertools.islice(broken(env, case, case["state"]), i, None))
            r.refused(what, [a, b])


def load(env, case):
    log = commands(env, case, case["prefix"], lambda r: r.load(case["load"]))
    alp = case["dev"] == "alp"

    def explore(faults):
        """faults: one assignment per failed attempt so far; the next attempt is fault-free, then with one more fault."""
        r = Rig(env, case)
        play(r, case["prefix"])
        back = (("s0" if r.single else "m%d" % len(r.current)), r.current) if case["prefix"] else None
        fs = r.frames(case["load"])
        what = "load %s after %s, attempts failing at %s" % (case["load"], case["prefix"], faults)
        for k, how in faults:
            err, n = r.attempt(lambda: r.load(case["load"], fs), {k: how}, what)
            if n <= k:
                return None                      # this attempt issues fewer commands
            env.check(isinstance(err, Exception), lambda: "%s: the failure of command %d did not reach the caller" % (what, k))
            env.check(r.c.is_initialized() is True, what + ": is_initialized is not True")
            env.outcome((case["dev"], case["load"], k, how, type(err).__name__))
        err, n = r.attempt(lambda: r.load(*back) if case["again"] == "back" else r.load(case["again"], fs if case["again"] == case["load"] else None), None, what)
        env.check(err is None, lambda: "%s: a load (%s) afterwards fails with %s: %s" % (what, case["again"], type(err).__name__, err))
        r.verify("%s, then load %s" % (what, case["again"]))
        if alp:
            r.attempt(r.c.close, None, what)
            env.check(not r.dev.allocated and r.dev.running is None and not r.dev.seqs, what + ": close left something allocated")
        env.state((case, faults))
        return n

    for first in points(log, len(log), alp, 6):
        explore([first])
        if "/" in first[1]:
            continue
        # later attempts may issue other commands; one extra command number covers a longer second attempt
        for second in [(k, how) for k in range(len(log) + 2) for how in ("before", "after")]:
            if alp and second[1] == "after" and second[0] < len(log) and log[second[0]][0] == "SeqAlloc":
                continue
            if alp and second[1] == "after" and (second[0] >= len(log) or len(log) != 0 and any(l[0] == "SeqAlloc" for l in log[max(0, second[0] - 1):second[0] + 2])):
                continue                          # the commands may be shifted by one: allocation may not fail after its effect
            if explore([first, second]) is None:
                continue
            if case["depth"] > 2:
                for third in [(k, "before") for k in range(len(log) + 1)]:
                    explore([first, second, third])


def init(env, case):
    log = commands(env, case, None, lambda r: r.c.initialize())
    alp = case["dev"] == "alp"
    for k, how in points(log, len(log), alp, 6):
        for k2, how2 in [(None, None)] + (points(log, len(log), alp) if "/" not in how else []):
            r = Rig(env, case, False)
            what = "initialize failing at command %d (%s, %s)%s" % (k, log[k][0], how, "" if k2 is None else " and then at %d (%s)" % (k2, how2))
            err, _ = r.attempt(r.c.initialize, {k: how}, what)
            env.check(isinstance(err, Exception), what + ": the failure did not reach the caller")
            env.check(r.c.is_initialized() is False, what + ": is_initialized is not False")
            if k2 is not None:
                recover(r, what, {k2: how2})
                if r.c.is_initialized() is True:
                    continue                      # the second fault was not reached
            err = recover(r, what, None)
            env.check(err is None and r.c.is_initialized() is True, lambda: "%s: initializing again does not work: %s" % (what, err))
            for l in LOADS:
                r.load(l)
                r.verify(what + ", then initialized and loaded")
            env.state((case, k, how, k2, how2)); env.outcome((case["dev"], "init", k, how, k2, how2))
    r = Rig(env, case)
    env.check(r.c.is_initialized() is True, "is_initialized is not True after initialize")
    # a failing constructor reports it
    import devsim
    from props import p21, p22
    for how in ("before", "after"):
        r.hub.arm({0: how})
        try:
            C = (p21 if alp else p22)._cache["module"]
            env.raises(devsim.DeviceError, lambda: C.ALPController() if alp else C.LuxbeamController("10.0.0.1"), "construction on a failing library")
        finally:
            r.hub.arm()


def recover(r, what, faults):
    """initialize again, closing first if the device is still open."""
    err, _ = r.attempt(r.c.initialize, faults, what)
    if err is not None and r.alp:
        r.attempt(r.c.close, None, what)
        err, _ = r.attempt(r.c.initialize, faults, what)
    return err


def query(env, case):
    import numpy as np
    for prefix in PREFIX:
        for name in ("Nx", "Ny", "number_image") + (() if case["dev"] == "alp" else ("fire_software_trigger",)):
            log = commands(env, case, prefix, lambda r: r.ops()[name]())
            for k, how in points(log, len(log), False, 6):
                r = Rig(env, case)
                play(r, prefix)
                err, _ = r.attempt(r.ops()[name], {k: how}, name)
                env.check(isinstance(err, Exception), lambda: "%s: failing command %d did not reach the caller" % (name, k))
                env.check(r.c.is_initialized() is True, name + ": is_initialized is not True after a failed query")
                env.check((r.c.Nx, r.c.Ny) == r.N, lambda: "size %s x %s, expected %s" % (r.c.Nx, r.c.Ny, r.N))
                img = r.c.number_image(3)
                env.check(isinstance(img, np.ndarray) and img.dtype == bool and img.shape == (r.N[1], r.N[0]), lambda: "number image %s %s" % (img.dtype, img.shape))
                err, _ = r.attempt(lambda: r.load("m3"), None, name)
                env.check(err is None, lambda: "a load after a failed %s fails: %s" % (name, err))
                if name != "fire_software_trigger":
                    r.verify("load after a failed %s" % name)
                env.state((case, prefix, name, k, how)); env.outcome((case["dev"], name, k, how))


def close(env, case):
    alp = case["dev"] == "alp"
    for prefix in PREFIX:
        if not alp:
            r = Rig(env, case); play(r, prefix)
            err, n = r.attempt(r.c.close, None, "close")
            env.check(err is None, "close fails: %s" % err)
            env.state((case, prefix, "close"))
            continue
        log = commands(env, case, prefix, lambda r: r.c.close())
        for k, how in points(log, len(log), alp, 6):
            if how[:5] == "after" and log[k][0] == "Free":
                continue                          # the device is gone; closing again has no meaning
            r = Rig(env, case); play(r, prefix)
            what = "close after %s failing at command %d (%s, %s)" % (prefix, k, log[k][0], how)
            err, _ = r.attempt(r.c.close, {k: how}, what)
            env.check(isinstance(err, Exception), what + ": the failure did not reach the caller")
            env.check(r.dev.allocated or r.c.is_initialized() is False, what + ": is_initialized although the device is gone")
            if r.dev.allocated:
                err, _ = r.attempt(r.c.close, None, what)
                env.check(err is None, lambda: "%s: closing again fails: %s" % (what, err))
            env.check(not r.dev.allocated and r.dev.running is None and not r.dev.seqs, what + ": closing again left something allocated")
            r.refused(what + ", closed again")
            err, _ = r.attempt(r.c.initialize, None, what)
            env.check(err is None and r.c.is_initialized() is True, lambda: "%s: initializing again fails: %s" % (what, err))
            r.load("m2"); r.verify(what + ", initialized and loaded again")


def missing(env, case):
    import devsim
    from props import p21, p22
    dev = devsim.AlpDevice(6, 4), devsim.LuxDevice(6, 4)
    mods = (devsim.alp_module(dev[0], False) if case["alp"] else None), (devsim.lux_module(dev[1]) if case["lux"] else None)
    C = devsim.install(alp=mods[0], lux=mods[1], reimport=True)
    p21._cache["installed"] = p22._cache["installed"] = None
    for have, make in ((case["alp"], lambda: C.ALPController()), (case["lux"], lambda: C.LuxbeamController("10.0.0.1"))):
        for _ in range(2):
            if have:
                c = make()
                env.check(c.is_initialized() is False, "a new controller is initialized")
                c.initialize()
                env.check(c.is_initialized() is True, "initialize does not initialize")
                c.close()
            else:
                env.raises(ModuleNotFoundError, make, "construction without the vendor library")
            env.step()
    env.state(("missing", case["alp"], case["lux"])); env.outcome(("missing", case["alp"], case["lux"]))
