"""P25: number images are full-frame, legible and distinct."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of numbers and frame sizes, and of call/overwrite histories, on the real function and through the real controllers on simulated devices, against the decimal notation drawn independently"
BOUNDS = {
    "quick": "every number -99..1100 on 6 frame sizes (16..96 rows, portrait and landscape), 70 numbers of every sign and length up to 20 digits (including numpy integers and powers of ten) on 22 frame sizes and the 3 presets' sizes; every sequence of 3 of 8 calls with the returned image overwritten in between; both controllers on 5 device sizes",
    "thorough": "every number -9999..9999 on 10 frame sizes, every sequence of 4"}
RULE = "state = (number, frame size, history); transition = one image; an outcome is a distinct image"
ASSUMPTIONS = ["at most a tenth of the lit pixels may differ from the independent drawing (another text renderer would still be accepted)"]
SHARDS = 8
DTYPES = ("float32",)
SIZES = [(64, 16), (90, 24), (40, 33), (200, 48), (60, 96), (300, 64)]
MANY = [(x, y) for y in (16, 17, 20, 31, 50, 75, 128) for x in (y // 2, 2 * y, 7 * y)] + [(1, 40)]
NUMS = sorted(set([s * v for s in (1, -1) for v in (0, 1, 7, 9, 10, 11, 19, 42, 99, 100, 101, 255, 256, 505, 999, 1000, 1001, 4096, 9999, 10000, 65535, 65536, 123456, 999999, 10 ** 7, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 1234567890, 10 ** 12, 2 ** 53 + 1, 10 ** 19 + 7)]))


def cases(env):
    T = env.thorough
    r = range(-9999, 10000) if T else range(-99, 1101)
    for N in SIZES + ([(400, 100), (30, 200), (129, 77), (512, 20)] if T else []):
        yield {"kind": "range", "N": list(N), "ops": list(r)}
    for N in MANY:
        yield {"kind": "nums", "N": list(N), "ops": NUMS}
    for N in ((1920, 1080), (1024, 768), (2560, 1600)):
        yield {"kind": "nums", "N": list(N), "ops": [0, 7, -31, 128, 4095, 10 ** 12]}
    calls = [[3, 60, 24], [8, 60, 24], [3, 24, 60], [3, 61, 24], [33, 60, 24], [0, 60, 24], [-3, 60, 24], [3, 60, 25]]
    seqs = [list(s) for s in itertools.product(calls, repeat=4 if T else 3)]
    for c in range(0, len(seqs), 64):
        yield {"kind": "history", "ops": seqs[c:c + 64]}
    for dev in ("alp", "lux"):
        for N in ((60, 24), (24, 60), (128, 96), (17, 16), (300, 64)):
            yield {"kind": "controller", "dev": dev, "N": list(N), "ops": [0, 5, 12, -7, 305, 99999]}


_font = {}


def drawn(i, Nx, Ny):
    """The decimal notation of i, drawn with the package's font file by our own code."""
    import glob, os, numpy as np
    from PIL import Image, ImageDraw, ImageFont
    repo = os.environ.get("VERIF_REPO", "/repo")
    if Ny not in _font:
        files = sorted(glob.glob(os.path.join(repo, "pySLM2", "**", "*.ttf"), recursive=True))
        _font[Ny] = ImageFont.truetype(files[0], Ny // 2)
    im = Image.new("L", (Nx, Ny), 0)
    d = ImageDraw.Draw(im)
    d.fontmode = "1"
    d.text((0, Ny // 4), "%d" % int(i), fill=255, font=_font[Ny])
    return np.asarray(im) > 127


def verify(env, img, i, Nx, Ny, what):
    import numpy as np
    env.check(isinstance(img, np.ndarray) and img.dtype == bool and img.shape == (Ny, Nx), lambda: "%s: %s of shape %s" % (what, getattr(img, "dtype", type(img)), getattr(img, "shape", None)))
    want = drawn(i, Nx, Ny)
    diff = int((img != want).sum())
    env.check(diff <= 0.1 * want.sum(), lambda: "%s: %d pixels differ from the number (%d lit pixels)" % (what, diff, int(want.sum())))
    rows = np.where(img.any(axis=1))[0]
    if rows.size:
        env.check(rows[0] >= Ny // 4 - 1 and rows[-1] <= Ny // 4 + Ny // 2 + 1, lambda: "%s: lit rows %d..%d of %d" % (what, rows[0], rows[-1], Ny))
    env.step()


def fits(i, Nx, Ny):
    drawn(i, 4, Ny)
    return _font[Ny].getlength("%d" % int(i)) <= Nx


def run_case(env, case):
    import numpy as np
    if case["kind"] == "controller":
        import devsim
        N = tuple(case["N"])
        from props import p21, p22
        dev, c = p21.controller(False, False, N) if case["dev"] == "alp" else p22.controller(False, N)
        c.initialize()
        for k, i in enumerate(case["ops"]):
            env.failed_at = k
            for rep in (0, 1):
                img = c.number_image(i)
                verify(env, img, i, N[0], N[1], "%s controller, number %d on %dx%d" % (case["dev"], i, *N))
                img[...] = ~img
            env.state((case["dev"], N, i))
        return
    from pySLM2.util import number_image
    if case["kind"] == "history":
        for k, seq in enumerate(case["ops"]):
            env.failed_at = k
            first = {}
            for i, nx, ny in seq:
                img = number_image(i, nx, ny)
                what = "number %d on %dx%d in %s" % (i, nx, ny, seq)
                verify(env, img, i, nx, ny, what)
                key = (i, nx, ny)
                if key in first: env.same(img, first[key], what + " drawn again")
                first[key] = img.copy()
                img[...] = ~img
            env.state(seq)
        return
    nx, ny = case["N"]
    seen = {}
    for k, i in enumerate(case["ops"]):
        env.failed_at = k
        for v in [i] + ([np.int64(i)] if abs(i) < 2 ** 62 and k % 3 == 0 else []):
            img = number_image(v, nx, ny)
            verify(env, img, i, nx, ny, "number %r on %dx%d" % (v, nx, ny))
        key = img.tobytes()
        if fits(i, nx, ny):
            env.check(key not in seen, lambda: "numbers %d and %d have the same image on %dx%d" % (i, seen[key], nx, ny))
            seen[key] = i
        env.state((i, nx, ny)); env.outcome_array(img)
