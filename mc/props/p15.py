"""P15: Gerchberg-Saxton holograms never get worse with more iterations."""
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of environment answers (every random initial phase over a small alphabet, supplied by the explorer) on the real method and simulation, with monotone mismatch as invariant and a double-precision reference of the projections"
BOUNDS = {
    "quick": "every initial phase pattern over 4 levels on 2x2 (256) for two beam-target pairs, and for a covering set of 10 beams (real, negative, sign-changing, complex, dark, tilted) x targets (every spot, 3 patterns, function profile) 32 of the 256 patterns on 2x2 and half of the 64 patterns over 4 levels on 3x1, 1x3 and over 2 levels on 3x2, 2x3, each with N = 0,1,2,3,4,8; default N on 6x5; both precisions",
    "thorough": "full product of beams and targets, 4 levels also on 3x2 (4096) for 4 beam-target pairs, N up to 40"}
RULE = "state = (device, beam, target, initial phase pattern, N); transition = one hologram (and its simulation); an outcome is a distinct hologram"
ASSUMPTIONS = ["the random start is requested from tf.random.uniform (the evidence counts seam_calls); otherwise only start-independent parts are decided", "phases that are numerically undetermined (vanishing back-transformed amplitude) are not compared with the reference; the invariant is still checked"]
SHARDS = 4
SEAM = True
BEAMS = ["one", "int", "neg", "tilt", "dark", "tilted", "lg", "number", "weak", "wide"]
NSEQ = [0, 1, 2, 3, 4, 8]


def targets(d):
    import numpy as np, holo
    t = holo.targets(d)
    X, Y = d.igrid()
    jj, ii = np.meshgrid(np.arange(d.Nx), np.arange(d.Ny))
    pat = ((2 * ii + 3 * jj) % 4 + 0.25 * jj)
    out = {k: v for k, v in t.items() if k.startswith("spot")}
    out["uniform"] = (lambda: 2, np.full((d.Ny, d.Nx), 2.0))
    out["pat"] = (lambda: pat.astype(np.float32), pat.astype(np.float32).astype(float))
    asym = np.where((ii + jj) % 2 == 0, 0.0, 1.0 + ii); asym[0, 0] = 1.5
    out["asym"] = (lambda: asym, asym)
    dx = d.sf / (d.Nx * d.px)
    e = ["HG", 0.4 * dx, -0.3 * dx, 2.0, 1.7 * dx, 0, 0]
    import ref, pySLM2
    out["hg"] = (lambda: ref.build(pySLM2, e), ref.ev(e, X, Y)[0])
    return out


def cases(env):
    import optics
    k = 0
    for N, base, levels in (([2, 2], 4, [0, .25, .5, .75]), ([3, 1], 4, [0, .25, .5, .75]), ([1, 3], 4, [0.125, .375, .5, .99]), ([3, 2], 2, [0.0, 0.3]), ([2, 3], 2, [0.15, 0.6])):
        n = N[0] * N[1]
        names = ["uniform", "pat", "asym", "hg"] + ["spot%d,%d" % (i, j) for i in range(N[1]) for j in range(N[0])]
        codes = list(range(base ** n))
        for i, b in enumerate(BEAMS):
            for j, t in enumerate(names):
                k += 1
                if env.thorough:
                    for c in range(0, len(codes), 64):
                        yield {"N": N, "beam": b, "target": t, "base": base, "levels": levels, "ops": codes[c:c + 64], "ns": NSEQ + [40]}
                elif (i + j) % 4 == 0:
                    # the covering set: all starts are spread over the beams and targets of a diagonal; every start occurs for every beam
                    yield {"N": N, "beam": b, "target": t, "base": base, "levels": levels, "ops": codes[j // 4::max(1, len(codes) // 32)] if len(codes) > 64 else codes[::2] if j % 2 else codes[1::2], "ns": NSEQ}
    if not env.thorough:
        for i, (b, t) in enumerate((("tilt", "pat"), ("neg", "asym"))):
            for c in range(i, 256, 8):
                yield {"N": [2, 2], "beam": b, "target": t, "base": 4, "levels": [0, .25, .5, .75], "ops": list(range(c - i, min(256, c - i + 8))), "ns": [0, 1, 2, 3]}
    if env.thorough:
        for b, t in (("tilt", "pat"), ("one", "asym"), ("neg", "hg"), ("dark", "pat")):
            for c in range(0, 4096, 64):
                yield {"N": [3, 2], "beam": b, "target": t, "base": 4, "levels": [0, .25, .5, .75], "ops": list(range(c, c + 64)), "ns": NSEQ}
    for b in ("one", "tilt"):
        yield {"N": [6, 5], "beam": b, "target": "pat", "base": 2, "levels": [0.1, 0.7], "ops": [0, 1, 2 ** 30 - 1, 0x2aaaaaaa], "ns": [0, 1, 2, 3, 5, 20, 200], "default": True}


def run_case(env, case):
    import numpy as np, pySLM2 as S, optics, holo, boot, lcosref
    nx, ny = case["N"]
    d = optics.Dev(nx, ny)
    slm = optics.lcos(S, d)
    sim = S.SLMSimulation(slm)
    fe, E = holo.beams(d)[case["beam"]]
    ft, T = targets(d)[case["target"]]
    beam, target = fe(), ft()
    eps = 2.0 ** -53 if env.f64 else 2.0 ** -24
    power = float(np.linalg.norm(E) * np.linalg.norm(T)) * d.px ** 2 / d.sf * np.sqrt(nx * ny)
    for k, code in enumerate(case["ops"]):
        env.failed_at = k
        u = np.array([case["levels"][i] for i in optics.digits(code, case["base"], nx * ny)]).reshape(ny, nx)
        reference = lcosref.iterate(d, E, T, 2 * np.pi * u, 4, eps)
        last = None
        for n in case["ns"]:
            what = "gs beam %s target %s start %s N=%d" % (case["beam"], case["target"], u.ravel().tolist(), n)
            s, seam = lcosref.run(env, slm, boot.SEAM, u, beam, target, what, "gs" if k % 2 else None, N=n)
            env.state((case["N"], case["beam"], case["target"], u.tolist(), n))
            if n >= 1:
                env.check(float(np.max(np.abs(s))) <= np.pi + 1e-5, lambda: "%s: phase %r outside [-pi, pi]" % (what, float(np.max(np.abs(s)))))
                env.outcome_array(np.round(np.exp(1j * s), 2))
            if not seam:
                continue
            if n < len(reference) and n <= 4:
                ph, sure = reference[n]
                env.count("phases_compared", int(sure.sum()))
                lcosref.phase_close(env, s, ph, sure, what)
            o = lcosref.overlap(sim, beam, T)
            env.step()
            if last is not None:
                env.check(o >= last - (1e-10 if env.f64 else 2e-5) * power, lambda: "%s: overlap of the simulated amplitude with the target falls from %.9g to %.9g" % (what, last, o))
            last = o
        if case.get("default"):
            s, seam = lcosref.run(env, slm, boot.SEAM, u, beam, target, "gs with default N")
            if seam:
                slm200, _ = lcosref.run(env, slm, boot.SEAM, u, beam, target, "gs with N=200", "gs", N=200)
                env.close(np.exp(1j * s), np.exp(1j * slm200), "default N against N=200", scale=1.0, tol32=1e-4)
                s1, _ = lcosref.run(env, slm, boot.SEAM, u, beam, target, "gs with N=199", "gs", N=199)
                env.count("n199_differs", int(not np.allclose(s1, s)))
    env.sample({"case": dict(case, ops=case["ops"][:3])})
