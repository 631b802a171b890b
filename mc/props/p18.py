"""P18: packing the DMD frame to bytes is lossless and refuses gray frames."""
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of Boolean frames (every frame of every small device shape, every index-bit, row and column frame of the presets) and of memory layouts and element types, on the real method against the bit-level definition"
BOUNDS = {
    "quick": "every Boolean frame of every device with at most 12 mirrors and of 4x4 and 5x3 (2^16 and 2^15), assigned in rotating memory layouts (C, Fortran, strided, reversed, transposed, read-only) or written into the frame the device already holds; all layouts x 40 frames on 7 shapes, each then inverted in place twice; 11 refused element types; frames made by the class's own operations; presets: all index-bit frames, every row and column of the DLP7000 and every 8th of the others",
    "thorough": "every frame with at most 16 mirrors, every row and column frame of every preset"}
RULE = "state = (shape, frame, layout); transition = one packing call; an outcome is a distinct byte string per shape"
ASSUMPTIONS = []
SHARDS = 4
LAYOUTS = ["C", "F", "strided", "reversed", "transposed", "readonly", "view"]


def shapes(n):
    return [(a, b) for a in range(1, n + 1) for b in range(1, n + 1) if a * b <= n]


def cases(env):
    T = env.thorough
    sh = shapes(16 if T else 12)
    if not T:
        sh += [(4, 4), (5, 3)]
    for nx, ny in sh:
        total = 2 ** (nx * ny)
        for c in range(0, total, 4096):
            yield {"N": [nx, ny], "kind": "all", "ops": [c, min(total, c + 4096)]}
    for N in ([5, 3], [3, 5], [8, 4], [9, 7], [1, 17], [16, 2], [7, 7]):
        yield {"N": N, "kind": "layout", "ops": list(range(40))}
        yield {"N": N, "kind": "refuse", "ops": ["uint8", "int8", "int32", "int64", "float16", "float32", "float64", "complex64", "complex128", "object", "S1"]}
        yield {"N": N, "kind": "made", "ops": [0, 1, 2, 3, 4, 5]}
    for k, n in ((0, (1920, 1080)), (1, (1024, 768)), (2, (2560, 1600))):
        st = 1 if (T or k == 1) else 8
        yield {"preset": k, "kind": "preset", "ops": ["bit%d" % b for b in range(22)]}
        for c in range(0, n[0], 256):
            yield {"preset": k, "kind": "preset", "ops": ["col%d" % i for i in range(c, min(c + 256, n[0]), st)]}
        for c in range(0, n[1], 256):
            yield {"preset": k, "kind": "preset", "ops": ["row%d" % i for i in range(c, min(c + 256, n[1]), st)]}


def lay(frame, kind):
    import numpy as np
    frame = frame.copy()
    ny, nx = frame.shape
    if kind == "C": return np.array(frame, order="C")
    if kind == "F": return np.array(frame, order="F")
    if kind == "strided":
        big = np.ones((2 * ny, 3 * nx), bool); big[::2, ::3] = frame; return big[::2, ::3]
    if kind == "reversed": return np.ascontiguousarray(frame[::-1, ::-1])[::-1, ::-1]
    if kind == "transposed": return np.ascontiguousarray(frame.T).T
    if kind == "readonly":
        a = frame.copy(); a.setflags(write=False); return a
    big = np.ones((ny + 2, nx + 3), bool); big[1:-1, 2:-1] = frame; return big[1:-1, 2:-1]


def expected(frame):
    """Row-major, most significant bit first, zero padding: computed bit by bit for small frames."""
    import numpy as np
    flat = [bool(v) for row in frame.tolist() for v in row]
    out = bytearray((len(flat) + 7) // 8)
    for k, v in enumerate(flat):
        if v:
            out[k // 8] |= 1 << (7 - k % 8)
    return bytes(out)


def run_case(env, case):
    import numpy as np, pySLM2 as S, optics
    if case["kind"] == "preset":
        return preset(env, case)
    nx, ny = case["N"]
    d = optics.Dev(nx, ny)
    dmd = optics.dmd(S, d, 3.3, 0.4)
    n = nx * ny

    def pack(frame, what, want=None, edit=False):
        keep = np.array(frame, copy=True)
        held = dmd.dmd_state
        if edit and held.dtype == bool and held.shape == frame.shape and held.flags.writeable:
            held[...] = frame               # edited in place, as a caller switches single mirrors
        else:
            dmd.dmd_state = frame
        got = dmd.pack_dmd_state()
        env.step()
        env.check(isinstance(got, bytes), lambda: "%s: returned %s" % (what, type(got)))
        w = expected(keep) if want is None else want
        env.check(got == w, lambda: "%s: %s, expected %s" % (what, got.hex(), w.hex()))
        s = dmd.dmd_state
        env.check(s.dtype == keep.dtype and np.array_equal(s, keep) and np.array_equal(frame, keep), lambda: what + ": packing changed the frame")
        return got

    if case["kind"] == "all":
        if n == 16 and env.f64 and not env.thorough:
            return
        nb = (n + 7) // 8
        for code in range(*case["ops"]):
            frame = np.array([(code >> (n - 1 - k)) & 1 for k in range(n)], dtype=bool).reshape(ny, nx)
            kind = LAYOUTS[code % len(LAYOUTS)]
            got = pack(lay(frame, kind), "frame %d (%s) of %dx%d" % (code, kind, nx, ny), (code << (8 * nb - n)).to_bytes(nb, "big"), edit=code // 2 % 2 == 1)
            env.outcome((nx, ny, got)); env.state((nx, ny, code, kind))
    elif case["kind"] == "layout":
        for k in case["ops"]:
            env.failed_at = k
            frame = ((np.arange(n) * (2 * k + 1) + k * k) % 7 < 1 + k % 5).reshape(ny, nx)
            for kind in LAYOUTS:
                got = pack(lay(frame, kind), "frame %d (%s) of %dx%d" % (k, kind, nx, ny))
                pack(~frame, "frame %d (%s) of %dx%d inverted in place" % (k, kind, nx, ny), edit=True)
                env.check(pack(frame, "frame %d (%s) of %dx%d inverted twice" % (k, kind, nx, ny), edit=True) == got, "bytes depend on the history")
                env.outcome((nx, ny, got)); env.state((nx, ny, "p", k, kind))
                back = np.unpackbits(np.frombuffer(got, np.uint8))[:n].reshape(ny, nx).astype(bool)
                env.check(np.array_equal(back, frame), "unpacking does not restore the frame")
    elif case["kind"] == "refuse":
        for t in case["ops"]:
            for v in (0, 1):
                f = np.full((ny, nx), v).astype(t)
                dmd.dmd_state = f
                keep = f.copy()
                env.raises(TypeError, dmd.pack_dmd_state, "packing a frame of element type %s" % t)
                env.step(); env.state((nx, ny, t, v))
                env.check(dmd.dmd_state.dtype == keep.dtype and np.array_equal(dmd.dmd_state, keep), "a refused packing changed the frame")
                env.outcome((nx, ny, t, v, "refused"))
                pack((np.arange(n) % 3 == v).reshape(ny, nx), "a Boolean frame after a refused one")
        dmd.set_dmd_grating_state(0.5, method="ideal")
        env.raises(TypeError, dmd.pack_dmd_state, "packing an ideal (gray) grating")
    else:
        for k in case["ops"]:
            if k == 0: dmd.set_dmd_state_on()
            elif k == 1: dmd.set_dmd_grating_state(0.7, 0.3, 0.1, method="simple")
            elif k == 2: dmd.circular_patch(1, 1, 0.9, 0, 0.5, 2.5, method="simple")
            elif k == 3: dmd.calculate_dmd_state(1.0, optics.inputs(d)["tilt"][1], method="simple")
            elif k == 4: dmd.set_dmd_grating_state()
            else: dmd.set_dmd_state_off()
            pack(dmd.dmd_state, "after operation %d" % k)
            env.state((nx, ny, "made", k))
    env.sample({"case": dict(case, ops=case["ops"][:2])})


def preset(env, case):
    import numpy as np, pySLM2 as S
    dmd = [S.DLP9500, S.DLP7000, S.DLP9000][case["preset"]](1.0, 1.0, 4.0, 0.5)
    ny, nx = dmd.dmd_state.shape
    idx = None
    for k, op in enumerate(case["ops"]):
        env.failed_at = k
        f = np.zeros((ny, nx), bool)
        v = int(op[3:])
        if op[:3] == "row": f[v] = True
        elif op[:3] == "col": f[:, v] = True
        else:
            if idx is None: idx = np.arange(nx * ny).reshape(ny, nx)
            f = (idx >> v) % 2 == 1
        flat = f.reshape(-1, 8)
        want = np.zeros(flat.shape[0], np.uint8)
        for b in range(8):
            want |= flat[:, b].astype(np.uint8) << (7 - b)
        dmd.dmd_state = f
        got = dmd.pack_dmd_state()
        env.step()
        env.check(got == want.tobytes(), lambda: "%s frame %s packs differently (%d bytes, expected %d)" % (type(dmd).__name__, op, len(got), want.size))
        env.state((case["preset"], op)); env.outcome((case["preset"], op))
