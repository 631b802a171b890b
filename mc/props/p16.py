"""P16: MRAF constrains exactly the signal window, with the mixing factor."""
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of environment answers (every random initial phase over a small alphabet, supplied by the explorer) crossed with every small signal window and mixing factor, on the real method against a double-precision reference of the iteration"
BOUNDS = {
    "quick": "every 0/1 signal window on 2x2, 3x1, 1x3 and 3x2 x 7 mixing factors x 4 starts x covering set of 9 beams and targets, N = 0..3; every initial phase pattern over 4 levels on 2x2 (256) for 3 settings; weighted, number and function windows on 4 shapes; defaults; mixing factor 1/2 with a full window against gs from the same start; both precisions",
    "thorough": "all beams and targets with every window, 16 starts, N up to 6"}
RULE = "state = (device, beam, target, window, mixing factor, start, N); transition = one hologram compared with the reference; an outcome is a distinct hologram"
ASSUMPTIONS = ["the random start is requested from tf.random.uniform (the evidence counts seam_calls)", "phases that are numerically undetermined are not compared (counted)"]
SHARDS = 4
SEAM = True
BEAMS = ["one", "neg", "tilt", "tilted", "lg", "number", "dark", "weak", "wide"]
MIX = [0.4, None, 0.5, 1.0, 0.0, 0.9, 1]
LEVELS = [0, .25, .5, .75]


def cases(env):
    T = env.thorough
    k = 0
    for N in ([2, 2], [3, 1], [1, 3], [3, 2]):
        n = N[0] * N[1]
        names = ["pat", "uniform", "asym", "hg"] + ["spot%d,%d" % (i, j) for i in range(N[1]) for j in range(N[0])]
        for i, b in enumerate(BEAMS):
            for j, t in enumerate(names):
                if not T and (j + i) % 4:
                    continue
                ops = []
                for w in range(2 ** n):
                    for m in range(len(MIX)):
                        k += 1
                        if T or (w + m + k // 7) % (2 if n < 5 else 6) == 0:
                            ops.append(["code%d" % w, m, (k * 37) % 4 ** n])
                for c in range(0, len(ops), 120):
                    yield {"N": N, "beam": b, "target": t, "ops": ops[c:c + 120], "nmax": 6 if T else 3}
    for b, t, w, m in (("tilt", "pat", "code7", 0), ("neg", "asym", "code11", 2), ("one", "uniform", "code6", 5)):
        for c in range(0, 256, 16):
            yield {"N": [2, 2], "beam": b, "target": t, "ops": [[w, m, s] for s in range(c, c + 16)], "nmax": 3}
    for N in ([4, 3], [5, 4], [3, 5], [6, 6]):
        for i, b in enumerate(BEAMS):
            ops = [[w, m, 977 * i + 31 * m + 1] for w in ("rect", "corner", "weights", "complex", "profile", "all", "zero") for m in range(len(MIX))]
            yield {"N": N, "beam": b, "target": ["pat", "hg", "asym", "uniform"][i % 4], "ops": ops if T else ops[i % 3::3], "nmax": 3}
            yield {"N": N, "beam": b, "target": ["pat", "hg", "asym", "uniform"][i % 4], "ops": [["all", 2, 13 * i + 5]], "nmax": 3, "gs": [1, 2, 3, 10]}
    for b in ("one", "tilt"):
        yield {"N": [5, 4], "beam": b, "target": "pat", "ops": [["rect", 1, 3]], "nmax": 1, "default": True}


def run_case(env, case):
    import numpy as np, pySLM2 as S, optics, holo, boot, lcosref
    from props.p14 import window
    from props.p15 import targets
    nx, ny = case["N"]
    d = optics.Dev(nx, ny)
    slm = optics.lcos(S, d)
    fe, E = holo.beams(d)[case["beam"]]
    ft, T = targets(d)[case["target"]]
    beam, target = fe(), ft()
    eps = 2.0 ** -53 if env.f64 else 2.0 ** -24
    for k, (wn, mi, code) in enumerate(case["ops"]):
        env.failed_at = k
        m = MIX[mi]
        kw = {} if m is None else {"mixing_factor": m}
        mm = 0.4 if m is None else float(m)
        wobj, W = window(wn, d)
        u = np.array([LEVELS[i] for i in optics.digits(code, 4, nx * ny)]).reshape(ny, nx)
        reference = lcosref.iterate(d, E, T, 2 * np.pi * u, case["nmax"], eps, W, mm)
        for n in range(case["nmax"] + 1) if k % 4 == 0 else (1, case["nmax"]):
            what = "mraf beam %s target %s window %s mixing %s start %d N=%d" % (case["beam"], case["target"], wn, m, code, n)
            s, seam = lcosref.run(env, slm, boot.SEAM, u, beam, target, what, "mraf", N=n, signal_window=wobj, **kw)
            env.state((case["N"], case["beam"], case["target"], wn, mi, code, n))
            if n >= 1:
                env.check(float(np.max(np.abs(s))) <= np.pi + 1e-5, lambda: "%s: phase outside [-pi, pi]" % what)
                env.outcome_array(np.round(np.exp(1j * s), 2))
            if seam and n < len(reference):
                ph, sure = reference[n]
                env.count("phases_compared", int(sure.sum()))
                env.count("phases_undetermined", int((~sure).sum()))
                lcosref.phase_close(env, s, ph, sure, what)
            else:
                env.count("calls_not_compared")
        for n in case.get("gs", ()):
            a, seam = lcosref.run(env, slm, boot.SEAM, u, beam, target, "mraf", "mraf", N=n, signal_window=1, mixing_factor=0.5)
            b, _ = lcosref.run(env, slm, boot.SEAM, u, beam, target, "gs", "gs", N=n)
            env.state((case["N"], case["beam"], case["target"], "gs", code, n))
            if seam:
                ph = lcosref.iterate(d, E, T, 2 * np.pi * u, n, eps)
                sure = ph[n][1] if n < len(ph) else np.zeros((ny, nx), bool)
                lcosref.phase_close(env, a, b.astype(float), sure, "mraf with a full window and mixing factor 1/2 against gs, N=%d" % n)
        if case.get("default"):
            a, seam = lcosref.run(env, slm, boot.SEAM, u, beam, target, "mraf defaults", "mraf", signal_window=wobj)
            for n, mf in ((200, 0.4), (200, None), (None, 0.4)):
                kw = {}
                if n is not None: kw["N"] = n
                if mf is not None: kw["mixing_factor"] = mf
                b, _ = lcosref.run(env, slm, boot.SEAM, u, beam, target, "mraf %s" % kw, "mraf", signal_window=wobj, **kw)
                if seam:
                    env.close(np.exp(1j * a), np.exp(1j * b), "mraf defaults against %s" % kw, scale=1.0, tol32=1e-4)
    env.sample({"case": dict(case, ops=case["ops"][:3])})
