"""Enumeration and execution shared by P09 (fields) and P10 (powers)."""
import itertools

PADS = [[0, 0], [1, 0], [0, 2], [3, 1]]
INPUTS = ["one", "int", "number", "tilt", "real", "tensor", "hg", "lg", "tilted", "const"]
UNITS = [[1.0, 0.5, 8.0], [10.8e-6, 370e-9, 0.2]]
PHASES = [0.0, 1.5707963267948966, 3.0, -2.5, 40.0]
GRAY = [0.0, 0.3, 1.0]


def cases(env):
    import optics
    shapes = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]
    pads = PADS if not env.thorough else [[a, b] for a in range(4) for b in range(4)]
    k = 0
    for nx, ny in shapes + ([(4, 3), (3, 4), (4, 1), (1, 4), (5, 2)] if env.thorough else []):
        n = 2 ** (nx * ny)
        for p in pads:
            for i in range(0, n, 128):
                k += 1
                ins = INPUTS if n <= 16 or env.thorough else [INPUTS[k % 10], INPUTS[(k + 3) % 10]]
                for inp in ins:
                    yield {"N": [nx, ny], "pad": p, "input": inp, "dev": "dmd", "states": [i, min(n, i + 128)], "u": k % 2}
    for nx, ny in ((2, 2), (3, 1), (1, 3)) + (((3, 2),) if env.thorough else ()):
        base = len(PHASES) if nx * ny < 6 else 3
        n = base ** (nx * ny)
        for p in pads[:4] if not env.thorough else pads:
            for i in range(0, n, 160):
                k += 1
                for inp in (INPUTS if env.thorough else [INPUTS[(k + j) % 10] for j in (0, 4, 7)]):
                    yield {"N": [nx, ny], "pad": p, "input": inp, "dev": "lcos", "base": base, "states": [i, min(n, i + 160)], "u": k % 2}
    for nx, ny in ((2, 2), (3, 1)):
        for p in pads[:4]:
            k += 1
            yield {"N": [nx, ny], "pad": p, "input": INPUTS[k % 10], "dev": "gray", "states": [0, 3 ** (nx * ny)], "u": k % 2}
    # larger frames, odd/even, a fixed family of patterns; element types
    for nx, ny in ((4, 4), (5, 4), (4, 5), (5, 5), (7, 6), (8, 3), (1, 8), (6, 1)):
        for p in ([0, 0], [2, 1], [1, 3], [5, 0]):
            for dev in ("dmd", "lcos"):
                k += 1
                for inp in (INPUTS if env.thorough else [INPUTS[k % 10], INPUTS[(k + 5) % 10]]):
                    yield {"N": [nx, ny], "pad": p, "input": inp, "dev": dev, "family": 10, "u": k % 2}
    for name in ("DLP7000", "DLP9500", "DLP9000", "PLUTO_2"):
        yield {"preset": name}


def states(case):
    import numpy as np, optics
    nx, ny = case["N"]
    if "family" in case:
        yy, xx = np.mgrid[0:ny, 0:nx]
        for f in range(case["family"]):
            h = (xx * (f + 3) + yy * (2 * f + 5) + xx * yy * f + f * f)
            if case["dev"] == "dmd":
                s = h % 3 == 0
                yield ("family", f), [s, s.astype(float), s.astype(np.float32), s.astype(np.int64), np.asfortranarray(s)][f % 5], s.astype(float)
            else:
                s = (h % 7) * 1.1 - 3
                yield ("family", f), [s, s.astype(np.float32), s.astype(complex), np.asfortranarray(s), np.round(s).astype(int)][f % 5], np.round(s) if f % 5 == 4 else (s.astype(np.float32).astype(float) if f % 5 == 1 else s)
        return
    for c in range(*case["states"]):
        if case["dev"] == "dmd":
            s = optics.bits(c, (ny, nx))
            yield c, s, s.astype(float)
        elif case["dev"] == "gray":
            s = np.array([GRAY[k] for k in optics.digits(c, 3, nx * ny)]).reshape(ny, nx)
            yield c, s, s
        else:
            s = np.array([PHASES[k] for k in optics.digits(c, case["base"], nx * ny)]).reshape(ny, nx)
            yield c, s, s


def run(env, case, judge):
    """Calls judge(env, sim, dev, pad, E_in, transmission, kind) after every propagation."""
    import numpy as np, pySLM2 as S, optics
    if "preset" in case:
        return preset(env, case, judge)
    nx, ny = case["N"]
    a, b = case["pad"]
    px, lam, foc = UNITS[case["u"]]
    d = optics.Dev(nx, ny, px, lam, foc)
    obj, E = optics.inputs(d)[case["input"]]
    obj = obj()
    lc = case["dev"] == "lcos"
    slm = optics.lcos(S, d) if lc else optics.dmd(S, d)
    sim = (S.DMDSimulation if (not lc and (a + b) % 2 == 0) else S.SLMSimulation)(slm, padding_x=a, padding_y=b)
    for k, (code, state, values) in enumerate(states(case)):
        name = "slm_state" if lc else "dmd_state"
        held = getattr(slm, name)
        # every other pattern is written into the array the device already holds, mirror by mirror
        if k % 2 and held.dtype == state.dtype and held.shape == state.shape and held.flags.writeable:
            held[...] = state
        else:
            setattr(slm, name, state)
        sim.propagate_to_image(obj)
        env.step()
        env.state((case["N"], case["pad"], case["input"], case["dev"], code, case["u"]))
        T = np.exp(1j * values) if lc else values
        judge(env, sim, d, (a, b), E, T, "lcos" if lc else ("binary" if case["dev"] == "dmd" else "gray"),
              "%dx%d %s padding %s input %s state %s" % (nx, ny, case["dev"], case["pad"], case["input"], code))
    env.sample({"case": case, "last_state": np.asarray(values).tolist()})


def preset(env, case, judge):
    import numpy as np, pySLM2 as S, optics
    from props.p07 import PRESETS
    nx, ny, px = PRESETS[case["preset"]]
    d = optics.Dev(nx, ny, px, 370e-9, 0.2)
    lc = case["preset"] == "PLUTO_2"
    slm = S.PLUTO_2(370e-9, 0.2) if lc else getattr(S, case["preset"])(370e-9, 0.2, 4, 0.7)
    X, Y = d.fgrid()
    u, v = X / px, Y / px
    E = (np.exp(-((u - 50) / 300) ** 2 - ((v + 30) / 200) ** 2) * (1 + 0.3 * np.sign(u + v / 2)) * np.exp(1j * (0.01 * u + u * v * 1e-5))).astype(np.complex64)
    jj, ii = np.meshgrid(np.arange(nx), np.arange(ny))
    h = (ii * 3 + jj * 5 + ii * jj) % 7
    pads = ([0, 0], [3, 10]) if not env.thorough else ([0, 0], [3, 10], [1, 0], [96, 64])
    for k, (a, b) in enumerate(pads):
        sim = S.SLMSimulation(slm, a, b) if lc or k % 2 else S.DMDSimulation(slm, a, b)
        if lc:
            slm.slm_state = h * 0.9 - 2
            T = np.exp(1j * slm.slm_state)
        else:
            slm.dmd_state = h < 3
            T = slm.dmd_state.astype(float)
        sim.propagate_to_image(E)
        env.step()
        env.state((case["preset"], a, b))
        judge(env, sim, d, (a, b), E.astype(complex), T, "lcos" if lc else "binary", "%s padding %s" % (case["preset"], (a, b)))
