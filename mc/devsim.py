"""Simulators of the two DMD devices behind their vendor APIs, installed as modules ALP4 and Luxbeam.

They model what the device does, not which calls are made: any call order that the vendor API permits and that leaves
the same mirrors on the device is fine.  Every command passes through Hub.command, which records it and can fail it.
"""
import sys, types
import numpy as np


class DeviceError(Exception):
    pass


# what a vendor library or the network below it may raise
ERRORS = [DeviceError, OSError, RuntimeError, TimeoutError, ValueError, AttributeError]


class Misuse(Exception):
    """The device was used in a way that has no defined result (reported as a violation by the checks)."""


class Hub(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.log, self.faults, self.n, self.misuse = [], {}, 0, []
        self.counting = True

    def command(self, name, args, effect):
        """Run one device command; faults maps the command number (since arm()) to 'before' or 'after', with '/k' for another class of error."""
        k, self.n = self.n, self.n + 1
        self.log.append((name, args))
        how, _, c = self.faults.get(k, "").partition("/")
        if how == "before":
            raise ERRORS[int(c or 0)]("injected failure of %s (command %d)" % (name, k))
        r = effect()
        if how == "after":
            raise ERRORS[int(c or 0)]("injected failure after %s (command %d)" % (name, k))
        return r

    def arm(self, faults=None):
        self.n, self.faults = 0, dict(faults or {})

    def bad(self, what):
        self.misuse.append(what)


HUB = Hub()

# ------------------------------------------------------------------------------------------------------------- ALP
ALP = dict(ALP_DEFAULT=0, ALP_ENABLE=1, ALP_OK=0, ALP_PROJ_MODE=2300, ALP_MASTER=2301, ALP_SLAVE=2302, ALP_PROJ_STEP=2329, ALP_PROJ_SYNC=2303, ALP_SYNCHRONOUS=2304,
           ALP_ASYNCHRONOUS=2305, ALP_PROJ_INVERSION=2306, ALP_PROJ_UPSIDE_DOWN=2307, ALP_PROJ_STATE=2400, ALP_PROJ_ACTIVE=1200, ALP_PROJ_IDLE=1201,
           ALP_TRIGGER_EDGE=2005, ALP_EDGE_FALLING=2008, ALP_EDGE_RISING=2009, ALP_LEVEL_HIGH=2006, ALP_LEVEL_LOW=2007,
           ALP_BIN_MODE=2104, ALP_BIN_NORMAL=2105, ALP_BIN_UNINTERRUPTED=2106, ALP_BITNUM=2103, ALP_BITPLANES=2200, ALP_PICNUM=2201,
           ALP_PICTURE_TIME=2203, ALP_ILLUMINATE_TIME=2204, ALP_SYNCH_DELAY=2205, ALP_SYNCH_PULSEWIDTH=2206, ALP_TRIGGER_IN_DELAY=2207,
           ALP_MIN_PICTURE_TIME=2211, ALP_MIN_ILLUMINATE_TIME=2212, ALP_MAX_PICTURE_TIME=2213, ALP_DEV_DISPLAY_WIDTH=2057, ALP_DEV_DISPLAY_HEIGHT=2058, ALP_DEV_DMDTYPE=2021,
           ALP_AVAIL_MEMORY=2003, ALP_DEVICE_NUMBER=2000, ALP_FIRSTFRAME=2101, ALP_LASTFRAME=2102, ALP_SEQ_REPEAT=2100, ALP_DATA_FORMAT=2110,
           ALP_DATA_MSB_ALIGN=0, ALP_DATA_LSB_ALIGN=1, ALP_FIRSTLINE=2111, ALP_LASTLINE=2112)


class AlpDevice(object):
    """The hardware."""

    def __init__(self, Nx, Ny, capacity=7):
        self.Nx, self.Ny, self.capacity = Nx, Ny, capacity
        self.allocated = False
        self.next_id = 1
        self.power_on()

    def power_on(self):
        self.seqs, self.mode, self.edge, self.invert, self.upside = {}, "ALP_MASTER", "ALP_EDGE_FALLING", False, False
        self.running = self.shown = None            # running: sequence id; shown: what the mirrors are
        self.pos = None

    def need(self, cond, what):
        if not cond:
            raise DeviceError(what)

    def image(self, s, k):
        img = s["data"][k]
        self.need(img is not None, "projecting a picture that was never loaded")
        if not np.all((img == 0) | (img == 255)):
            HUB.bad("pixel values %s are not full scale" % sorted(set(np.unique(img)) - {0, 255}))
        on = img >= 128
        if self.upside:
            on = on[::-1]
        return ~on if self.invert else on

    def start(self, sid, loop):
        self.need(self.running is None, "ALP_NOT_IDLE")
        s = self.seqs.get(sid)
        self.need(s is not None, "ALP_PARM_INVALID sequence")
        self.running, self.pos, self.loop = sid, None, loop
        if self.mode == "ALP_MASTER":
            self.pos = 0
            self.shown = self.image(s, 0)
            if s["bin"] != "ALP_BIN_UNINTERRUPTED":
                self.shown = "flicker"
            elif len(s["data"]) > 1:
                self.shown = "free running"
            elif not loop:
                self.shown = "one shot"
        else:
            for k in range(len(s["data"])):
                self.image(s, k)

    def trigger(self, edge):
        if self.running is None or self.mode != "ALP_SLAVE" or edge != self.edge:
            return
        s = self.seqs[self.running]
        n = len(s["data"])
        self.pos = 0 if self.pos is None else self.pos + 1
        if self.pos >= n and not self.loop:
            return
        self.shown = self.image(s, self.pos % n) if s["bin"] == "ALP_BIN_UNINTERRUPTED" else "flicker"


def alp_module(device, stale):
    """module ALP4; stale: FreeSeq keeps _lastDDRseq (older library versions)."""
    m = types.ModuleType("ALP4")
    for k, v in ALP.items():
        setattr(m, k, v)
    name = {v: k for k, v in ALP.items() if v > 1}
    D = device

    class SeqId(object):
        def __init__(self, n): self.value = n
        def __repr__(self): return "SeqId(%d)" % self.value

    def sid(x):
        return None if x is None else getattr(x, "value", x)

    class ALP4(object):
        def __init__(self, version="4.3", libDir=None):
            HUB.command("ALP4", (version,), lambda: None)
            self._lastDDRseq, self.ALP_ID, self.nSizeX, self.nSizeY = None, None, None, None

        def _alive(self):
            D.need(D.allocated and self.ALP_ID is not None, "ALP_PARM_INVALID device")

        def Initialize(self, DeviceNum=None):
            def f():
                D.need(not D.allocated, "ALP_NOT_AVAILABLE")
                D.power_on(); D.allocated = True
                self.ALP_ID, self.nSizeX, self.nSizeY = 1, D.Nx, D.Ny
            HUB.command("Initialize", (), f)

        def SeqAlloc(self, nbImg=1, bitDepth=1):
            def f():
                self._alive()
                used = sum(len(s["data"]) * s["bits"] for s in D.seqs.values())
                D.need(int(nbImg) >= 1 and used + int(nbImg) * int(bitDepth) <= D.capacity, "ALP_MEMORY_FULL (%d of %d in use)" % (used, D.capacity))
                i = D.next_id; D.next_id += 1
                D.seqs[i] = dict(data=[None] * int(nbImg), bits=int(bitDepth), bin="ALP_BIN_NORMAL", time=None, timed_for=None)
                self._lastDDRseq = SeqId(i)
                return self._lastDDRseq
            return HUB.command("SeqAlloc", (nbImg, bitDepth), f)

        def _seq(self, SequenceId):
            self._alive()
            i = sid(SequenceId if SequenceId is not None else self._lastDDRseq)
            D.need(i in D.seqs, "ALP_PARM_INVALID sequence %s" % i)
            return i, D.seqs[i]

        def SeqPut(self, imgData, SequenceId=None, PicOffset=0, PicLoad=0, dataFormat="Python"):
            def f():
                i, s = self._seq(SequenceId)
                D.need(D.running != i, "ALP_SEQ_IN_USE")
                raw = np.asarray(imgData)
                a = raw.astype(np.uint8)                       # keeps the memory order, as the library does
                if not np.array_equal(a, raw):
                    HUB.bad("pixel values outside 0..255: %s" % raw.dtype)
                flat = np.ravel(a, order="K")                  # the library passes a pointer to the memory
                n = PicLoad if PicLoad > 0 else len(s["data"]) - PicOffset
                if flat.size != n * D.Nx * D.Ny:
                    HUB.bad("SeqPut: %d pixels for %d pictures of %dx%d" % (flat.size, n, D.Nx, D.Ny))
                    raise DeviceError("access violation")
                for k in range(n):
                    s["data"][PicOffset + k] = flat[k * D.Nx * D.Ny:(k + 1) * D.Nx * D.Ny].reshape(D.Ny, D.Nx).copy()
            HUB.command("SeqPut", (), f)

        def SeqControl(self, controlType, value, SequenceId=None):
            def f():
                i, s = self._seq(SequenceId)
                if controlType == m.ALP_BIN_MODE:
                    D.need(value in (m.ALP_BIN_NORMAL, m.ALP_BIN_UNINTERRUPTED) and s["bits"] == 1, "ALP_PARM_INVALID")
                    s["bin"] = name[value]
            HUB.command("SeqControl", (controlType, value), f)

        def SeqInquire(self, inquireType, SequenceId=None):
            def f():
                i, s = self._seq(SequenceId)
                if inquireType == m.ALP_MIN_PICTURE_TIME: return 44 if s["bin"] == "ALP_BIN_UNINTERRUPTED" else 105
                if inquireType == m.ALP_PICNUM: return len(s["data"])
                if inquireType in (m.ALP_BITPLANES, m.ALP_BITNUM): return s["bits"]
                if inquireType == m.ALP_PICTURE_TIME: return s["time"] or 33334
                return 0
            return HUB.command("SeqInquire", (inquireType,), f)

        def SetTiming(self, SequenceId=None, illuminationTime=None, pictureTime=None, synchDelay=None, synchPulseWidth=None, triggerInDelay=None):
            def f():
                i, s = self._seq(SequenceId)
                D.need(D.running != i, "ALP_SEQ_IN_USE")
                t = None if pictureTime in (None, 0) else int(getattr(pictureTime, "value", pictureTime))
                s["time"], s["timed_for"] = t, s["bin"]
            HUB.command("SetTiming", (pictureTime,), f)

        def DevInquire(self, inquireType):
            def f():
                self._alive()
                if inquireType == m.ALP_DEV_DISPLAY_WIDTH: return D.Nx
                if inquireType == m.ALP_DEV_DISPLAY_HEIGHT: return D.Ny
                return 0
            return HUB.command("DevInquire", (inquireType,), f)

        def DevControl(self, controlType, value):
            def f():
                self._alive()
                if controlType == m.ALP_TRIGGER_EDGE:
                    D.need(value in (m.ALP_EDGE_FALLING, m.ALP_EDGE_RISING), "ALP_PARM_INVALID")
                    D.edge = name[value]
            HUB.command("DevControl", (controlType, value), f)

        def ProjControl(self, controlType, value):
            def f():
                self._alive()
                if controlType == m.ALP_PROJ_MODE:
                    D.need(D.running is None, "ALP_NOT_IDLE")
                    D.need(value in (m.ALP_MASTER, m.ALP_SLAVE), "ALP_PARM_INVALID")
                    D.mode = name[value]
                elif controlType == m.ALP_PROJ_INVERSION: D.invert = value != m.ALP_DEFAULT
                elif controlType == m.ALP_PROJ_UPSIDE_DOWN: D.upside = value != m.ALP_DEFAULT
            HUB.command("ProjControl", (controlType, value), f)

        def ProjInquire(self, inquireType, SequenceId=None):
            def f():
                self._alive()
                return m.ALP_PROJ_IDLE if D.running is None else m.ALP_PROJ_ACTIVE
            return HUB.command("ProjInquire", (inquireType,), f)

        def Run(self, SequenceId=None, loop=True):
            def f():
                i, s = self._seq(SequenceId)
                D.start(i, loop)
            HUB.command("Run", (loop,), f)

        def Halt(self):
            def f():
                self._alive()
                D.running = None
            HUB.command("Halt", (), f)

        def Wait(self):
            HUB.command("Wait", (), self._alive)

        def FreeSeq(self, SequenceId=None):
            def f():
                self._alive()
                i = sid(SequenceId if SequenceId is not None else self._lastDDRseq)
                if i in D.seqs and D.running != i:
                    del D.seqs[i]
                elif i in D.seqs:
                    HUB.bad("a running sequence was freed")
                # an unknown sequence only makes the library print a warning
                if not stale and sid(self._lastDDRseq) == i:
                    self._lastDDRseq = None
            HUB.command("FreeSeq", (), f)

        def Free(self):
            def f():
                self._alive()
                D.need(D.running is None, "ALP_NOT_IDLE")
                D.held_at_free = len(D.seqs)
                D.allocated, self.ALP_ID, D.seqs = False, None, {}
                D.shown = None
            HUB.command("Free", (), f)

    m.ALP4 = ALP4
    return m


# --------------------------------------------------------------------------------------------------------- Luxbeam
class LuxDevice(object):
    def __init__(self, Nx, Ny):
        self.Nx, self.Ny = Nx, Ny
        self.program, self.regs, self.images = None, {}, {}
        self.run = self.reset = False
        self.sync = 0
        self.edges = 0
        self.mirrors = self.buffer = None
        self.gen = None
        self.waiting = None
        self.fired = 0

    def value(self, v, env):
        return v(env) if callable(v) else v

    def execute(self, block, env):
        for op in block:
            k = op[0]
            if k == "load":
                self.buffer = self.images.get(self.value(op[1], env), "never loaded")
            elif k == "show":
                self.mirrors = self.buffer
            elif k == "trig":
                yield op
            elif k == "jump":
                guard = 0
                while True:
                    before = self.fired
                    for w in self.execute(op[1], env):
                        yield w
                    guard = guard + 1 if self.fired == before else 0
                    if guard > 1000:
                        HUB.bad("the sequencer program loops without waiting for a trigger")
                        return
            elif k == "range":
                i = self.value(op[1], env)
                while i < self.value(op[2], env):
                    env[op[3]] = i
                    for w in self.execute(op[4], env):
                        yield w
                    i += 1

    def _advance(self):
        if not self.run or self.reset:
            return
        try:
            self.waiting = next(self.gen)
        except StopIteration:
            self.waiting = None

    def set_state(self, what, on):
        if what == "RESET":
            self.reset = on
            if on:
                self.gen, self.waiting = None, None
        else:
            self.run = on
        if self.run and not self.reset and self.waiting is None and self.program is not None:
            if self.gen is None:
                self.gen = self.execute(self.program, {"regs": self.regs})
            self._advance()

    def stopped(self, what):
        if self.run and not self.reset:
            HUB.bad("%s while the sequencer is running" % what)

    def trigger(self, source, edge):
        """source: SOFTWARE/ELECTRICAL/OPTICAL; edge: rising/falling"""
        if not self.run or self.reset or self.waiting is None:
            return
        mode, sources = self.waiting[1], self.waiting[2]
        if sources & {"SOFTWARE": 1, "ELECTRICAL": 2, "OPTICAL": 4}[source] and mode == {"rising": 0, "falling": 1}[edge]:
            self.fired += 1
            self._advance()


class Expr(object):
    def __init__(self, f): self.f = f
    def __call__(self, env): return self.f(env)
    def __add__(self, o): return Expr(lambda env: self.f(env) + (o(env) if callable(o) else o))
    __radd__ = __add__
    def __sub__(self, o): return Expr(lambda env: self.f(env) - (o(env) if callable(o) else o))


def lux_module(device):
    m = types.ModuleType("Luxbeam")
    m.ENABLE, m.DISABLE = 1, 0
    m.SEQ_CMD_RUN, m.SEQ_CMD_RESET, m.SEQ_CMD_BREAK = 1, 2, 4
    m.TRIG_MODE_POSITIVE_EDGE, m.TRIG_MODE_NEGATIVE_EDGE = 0, 1
    m.TRIG_SOURCE_SOFTWARE, m.TRIG_SOURCE_ELECTRICAL, m.TRIG_SOURCE_OPTICAL = 1, 2, 4
    D = device

    class LuxbeamSequencer(object):
        def __init__(self):
            self.block = self.top = []
            self.vars = 0

        def assign_var_reg(self, regno=None):
            r = 0 if regno is None else regno
            return Expr(lambda env: env["regs"].get(r, 0))

        def _nest(self, op, body, value):
            self.block.append(op)
            outer, self.block = self.block, body
            yield value
            self.block = outer

        def jump_loop_iter(self):
            body = []
            return self._nest(("jump", body), body, 0)

        def range_loop_iter(self, start, stop):
            body = []
            self.vars += 1
            v = self.vars
            return self._nest(("range", start, stop, v, body), body, (0, Expr(lambda env: env[v])))

        def load_global(self, inum, wait=0):
            self.block.append(("load", inum))

        def reset_global(self, wait=0):
            self.block.append(("show",))

        def trig(self, mode, source, timeout=0):
            self.block.append(("trig", mode, source))

        def wait(self, *a):
            pass

        def dumps(self):
            return ("program", self.top)

    class Luxbeam(object):
        def __init__(self, dmd_ip, inverse=False, timeout=None):
            HUB.command("Luxbeam", (dmd_ip, inverse, timeout), lambda: None)
            self._inverse = inverse
            self.ip, self.timeout = dmd_ip, timeout

        cols = property(lambda self: HUB.command("cols", (), lambda: D.Nx))
        rows = property(lambda self: HUB.command("rows", (), lambda: D.Ny))

        def set_sequencer_state(self, seq_cmd, enable):
            HUB.command("set_sequencer_state", (seq_cmd, enable), lambda: D.set_state({1: "RUN", 2: "RESET"}[seq_cmd], bool(enable)))

        def set_sequencer_reg(self, reg_no, reg_val):
            def f():
                D.stopped("a sequencer register was changed")
                D.regs[reg_no] = int(reg_val)
            HUB.command("set_sequencer_reg", (reg_no, reg_val), f)

        def load_sequence(self, seq):
            def f():
                D.stopped("a sequencer program was loaded")
                if not (isinstance(seq, tuple) and seq[0] == "program"):
                    HUB.bad("load_sequence was not given a dumped program")
                    raise DeviceError("bad program")
                D.program, D.gen, D.waiting = seq[1], None, None
            HUB.command("load_sequence", (), f)

        def load_image(self, inum, image):
            def f():
                D.stopped("an image was loaded")
                a = np.asarray(image)
                if a.dtype != bool or a.shape != (D.Ny, D.Nx):
                    HUB.bad("load_image was given %s of shape %s" % (a.dtype, a.shape))
                    raise DeviceError("bad image")
                D.images[int(inum)] = (~a if self._inverse else a.copy())
            HUB.command("load_image", (inum,), f)

        def set_software_sync(self, level):
            def f():
                old, D.sync = D.sync, int(level)
                if D.sync != old:
                    D.edges += 1 if D.sync else 0
                    D.trigger("SOFTWARE", "rising" if D.sync else "falling")
            HUB.command("set_software_sync", (level,), f)

    m.Luxbeam, m.LuxbeamSequencer = Luxbeam, LuxbeamSequencer
    return m


# ------------------------------------------------------------------------------------------------------ installation
def install(alp=None, lux=None, reimport=False):
    """Put the modules (or None: library missing) in place; the package's controller module must see them."""
    HUB.reset()
    sys.modules["ALP4"] = alp
    sys.modules["Luxbeam"] = lux
    import importlib
    if reimport:
        for k in [k for k in sys.modules if k == "pySLM2.util" or k.startswith("pySLM2.util.")]:
            del sys.modules[k]
    return importlib.import_module("pySLM2.util.controller")
