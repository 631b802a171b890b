"""P10: optical power is accounted for exactly in both planes."""
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of modulator states, paddings and inputs on the real simulation with power conservation as invariant and direct sums as oracle"
BOUNDS = {
    "quick": "the same executions as P09 (every mirror pattern up to 3x3, phase and gray patterns over small alphabets, 4 paddings, larger shapes, presets), each DMD simulation also after blocking the zeroth order",
    "thorough": "the same executions as P09 thorough"}
RULE = "state = (device shape, padding, input, modulator state); transition = one propagation whose powers are checked; an outcome is a distinct triple of powers"
ASSUMPTIONS = ["powers are compared to 1e-4 relative in 32 bit, 1e-9 in 64 bit"]
SHARDS = 4


def cases(env):
    import opticcase
    return opticcase.cases(env)


def judge(env, sim, d, pad, E, T, kind, what):
    import numpy as np
    af, ai = d.areas(*pad)
    p_in, p_out = float(np.sum(np.abs(E) ** 2)) * af, float(np.sum(np.abs(E * T) ** 2)) * af
    got = [sim.get_input_power(), sim.get_output_power(), sim.get_image_plane_power()]
    rel = 1e-9 if env.f64 else 1e-4
    for name, g, want in zip(("input", "output", "image plane"), got, (p_in, p_out, p_out)):
        env.check(np.ndim(g) == 0 and abs(float(g) - want) <= rel * p_in, lambda: "%s: %s power %r, expected %r" % (what, name, g, want))
    env.check(abs(got[2] - got[1]) <= rel * p_in, lambda: "%s: image-plane power %r, output power %r" % (what, got[2], got[1]))
    for name, g, area in zip(("input", "output", "image_plane"), got, (sim.fourier_plane_pixel_area, sim.fourier_plane_pixel_area, sim.image_plane_pixel_area)):
        s = float(np.sum(getattr(sim, name + "_intensity").astype(float))) * float(area)
        env.check(abs(float(g) - s) <= rel * p_in, lambda: "%s: %s power %r, sum of intensity times area %r" % (what, name, g, s))
    if kind in ("binary", "gray"):
        env.check(got[1] <= got[0] * (1 + rel), lambda: "%s: a mirror state outputs %r of %r" % (what, got[1], got[0]))
    else:
        env.check(abs(got[1] - got[0]) <= rel * p_in, lambda: "%s: a phase state outputs %r of %r" % (what, got[1], got[0]))
    env.outcome([float("%.4g" % g) for g in got])
    if hasattr(sim, "block_zeroth_order"):             # the powers follow the fields: blocked light is no longer in the image plane
        X, Y = d.igrid(*pad)
        r = 0.7 * max(abs(X).max(), abs(Y).max()) + 1e-9 * d.sf / d.px
        ref = d.to_image(d.embed(E * T, *pad), *pad) if X.size < 1000 else sim.image_plane_field.astype(complex)
        sim.block_zeroth_order(r=r)
        env.step()
        want = float(np.sum(np.where(X ** 2 + Y ** 2 < r ** 2, 0, np.abs(ref) ** 2))) * ai
        edge = float(np.sum(np.where(np.abs(np.hypot(X, Y) / r - 1) < 1e-5, np.abs(ref) ** 2, 0))) * ai
        g = float(sim.get_image_plane_power())
        env.check(abs(g - want) <= 10 * rel * p_in + edge, lambda: "%s: image-plane power %r after blocking radius %r, expected %r" % (what, g, r, want))
        env.check(sim.get_output_power() == got[1] and sim.get_input_power() == got[0], lambda: "%s: input or output power changed by blocking the zeroth order" % what)


def run_case(env, case):
    import opticcase
    opticcase.run(env, case, judge)
