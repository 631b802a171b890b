"""P07: plane grids are centred, FFT-dual and consistent across padding and devices."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of device/padding configurations and of query histories over pairs of devices, on the real classes against the coordinate formulas"
BOUNDS = {
    "quick": "all device sizes {1..6,8}^2 x 5 paddings x 2 pitches/wavelengths/focal lengths; 4 presets with 3 paddings; every sequence of 2 (and every ordered pair revisited) of 10 queries over two devices differing in one of 5 parameters and two simulations, overwriting every returned array; both precisions",
    "thorough": "all sizes {1..9}^2 x 16 paddings, every sequence of 3 queries"}
RULE = "state = (device parameters, padding) or (device pair, query history); transition = one grid/area query compared with the formula; an outcome is a distinct grid"
ASSUMPTIONS = ["positions are compared to 3e-6 of the frame width in 32 bit (1e-12 in 64 bit)"]
SHARDS = 4
FAST_TRACE = True

PRESETS = {"DLP9500": [1920, 1080, 10.8e-6], "DLP7000": [1024, 768, 13.68e-6], "DLP9000": [2560, 1600, 7.56e-6], "PLUTO_2": [1920, 1080, 8e-6]}


def cases(env):
    sizes = range(1, 10) if env.thorough else (1, 2, 3, 4, 5, 6, 8)
    pads = [[0, 0], [1, 0], [0, 1], [2, 3], [3, 1]] if not env.thorough else [[a, b] for a in range(4) for b in range(4)]
    k = 0
    for nx, ny in itertools.product(sizes, sizes):
        for u in ([1.0, 0.5, 8.0], [10.8e-6, 370e-9, 0.2]):
            k += 1
            yield {"kind": "size", "N": [nx, ny], "units": u, "pads": pads, "mode": "graph" if k % 7 == 0 else "eager"}
    for p in PRESETS:
        yield {"kind": "preset", "name": p}
    for other in ({"Nx": 6}, {"Ny": 3}, {"px": 2.0}, {"lam": 0.25}, {"foc": 4.0}, {}):
        import tours
        word = tours.de_bruijn(list(range(12)), 3 if env.thorough else 2)
        for s in tours.segments(word, 160, 2 if env.thorough else 1):
            for mode in ("graph", "eager"):
                yield {"kind": "history", "other": other, "ops": s, "mode": mode}


def grid(env, got, want, what):
    import numpy as np
    env.step()
    env.check(len(got) == 2, what + " is a pair")
    for c, g, w in zip("xy", got, want):
        env.check(isinstance(g, np.ndarray), what + " is an array")
        env.check(g.dtype == env.real, lambda: "%s %s has dtype %s" % (what, c, g.dtype))
        env.close(g, w, "%s, %s" % (what, c), scale=max(np.max(np.abs(w)), 0), tol32=1e-6, tol64=1e-12)
    env.outcome_array(got[0] / (np.max(np.abs(want[0])) or 1))


def areas(env, sim, d, px, py):
    a, b = d.areas(px, py)
    env.step()
    env.close(float(sim.fourier_plane_pixel_area), a, "fourier_plane_pixel_area", tol32=1e-6, tol64=1e-12)
    env.close(float(sim.image_plane_pixel_area), b, "image_plane_pixel_area", tol32=1e-6, tol64=1e-12)
    env.same([sim.Nx, sim.Ny, sim.padding_x, sim.padding_y], [d.Nx + 2 * px, d.Ny + 2 * py, px, py], "Nx, Ny, paddings of the simulation")


def run_case(env, case):
    import numpy as np, tensorflow as tf, pySLM2 as S, optics
    tf.config.run_functions_eagerly(case.get("mode") == "eager")
    try:
        if case["kind"] == "size":
            px, lam, foc = case["units"]
            nx, ny = case["N"]
            d = optics.Dev(nx, ny, px, lam, foc)
            for make in (optics.dmd, optics.lcos, lambda S, d: S.SLM(d.lam, d.foc, d.Nx, d.Ny, d.px)):
                slm = make(S, d)
                env.state((make.__name__, case["N"], case["units"]))
                env.same([slm.Nx, slm.Ny, slm.pixel_size, slm.wavelength, slm.focal_length], [nx, ny, px, lam, foc], "device parameters")
                env.close(slm.scaling_factor, lam * foc, "scaling_factor", tol32=1e-6, tol64=1e-12)
                grid(env, slm.fourier_plane_grid, d.fgrid(), "fourier_plane_grid of %dx%d" % (nx, ny))
                grid(env, slm.image_plane_grid, d.igrid(), "image_plane_grid of %dx%d" % (nx, ny))
            for a, b in case["pads"]:
                for cls, dev in ((S.SLMSimulation, slm), (S.DMDSimulation, optics.dmd(S, d))):
                    sim = cls(dev, padding_x=a, padding_y=b)
                    env.state(("sim", case["N"], case["units"], a, b))
                    grid(env, sim.image_plane_padded_grid, d.igrid(a, b), "image_plane_padded_grid of %dx%d padded by %d,%d" % (nx, ny, a, b))
                    f = sim.fourier_plane_padded_grid
                    grid(env, f, d.fgrid(a, b), "fourier_plane_padded_grid of %dx%d padded by %d,%d" % (nx, ny, a, b))
                    for c in (0, 1):
                        env.same(f[c][b:b + ny, a:a + nx], dev.fourier_plane_grid[c], "padded grid restricted to the device")
                    areas(env, sim, d, a, b)
                    env.close(sim.scaling_factor, lam * foc, "scaling_factor of the simulation", tol32=1e-6, tol64=1e-12)
            env.sample({"device": case, "x": d.fgrid()[0][0].tolist(), "x'": d.igrid()[0][0].tolist()})
        elif case["kind"] == "preset":
            nx, ny, px = PRESETS[case["name"]]
            d = optics.Dev(nx, ny, px, 370e-9, 0.2)
            slm = S.PLUTO_2(370e-9, 0.2) if case["name"] == "PLUTO_2" else getattr(S, case["name"])(370e-9, 0.2, 4, np.pi / 4)
            env.state(("preset", case["name"]))
            env.same([slm.Nx, slm.Ny], [nx, ny], "pixel counts of " + case["name"])
            env.close(slm.pixel_size, px, "pitch of " + case["name"], tol32=1e-9, tol64=1e-9)
            grid(env, slm.fourier_plane_grid, d.fgrid(), "fourier_plane_grid of " + case["name"])
            grid(env, slm.image_plane_grid, d.igrid(), "image_plane_grid of " + case["name"])
            for a, b in ([0, 0], [1, 0], [7, 64]):
                sim = S.SLMSimulation(slm, a, b)
                grid(env, sim.image_plane_padded_grid, d.igrid(a, b), "image_plane_padded_grid of " + case["name"])
                grid(env, sim.fourier_plane_padded_grid, d.fgrid(a, b), "fourier_plane_padded_grid of " + case["name"])
                areas(env, sim, d, a, b)
        else:
            p = dict(Nx=5, Ny=4, px=1.0, lam=0.5, foc=8.0)
            ds = [optics.Dev(**p), optics.Dev(**dict(p, **case["other"]))]
            slms = [optics.dmd(S, ds[0]), optics.dmd(S, ds[1])]
            sims = [S.DMDSimulation(slms[0], 1, 2), S.SLMSimulation(slms[1], 1, 2), S.DMDSimulation(slms[0], 0, 0), S.SLMSimulation(slms[1], 3, 0)]
            for k, op in enumerate(case["ops"]):
                env.failed_at = k
                env.state((case["other"], case["mode"], case["ops"][max(0, k - 2):k + 1]))
                if op < 4:
                    d, slm = ds[op % 2], slms[op % 2]
                    got, want, what = (slm.fourier_plane_grid, d.fgrid(), "fourier_plane_grid") if op < 2 else (slm.image_plane_grid, d.igrid(), "image_plane_grid")
                else:
                    i = (op - 4) % 4
                    sim, d = sims[i], ds[i % 2]
                    a, b = ((1, 2), (1, 2), (0, 0), (3, 0))[i]
                    areas(env, sim, d, a, b)
                    got, want, what = (sim.fourier_plane_padded_grid, d.fgrid(a, b), "fourier_plane_padded_grid") if op < 8 else (sim.image_plane_padded_grid, d.igrid(a, b), "image_plane_padded_grid")
                grid(env, got, want, "query %d (%s, operation %d)" % (k, what, op))
                for g in got:
                    if g.flags.writeable:
                        g += 17.0          # callers own what they got
    finally:
        tf.config.run_functions_eagerly(False)
