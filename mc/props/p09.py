"""P09: propagation is the scaled Fourier integral of the modulated input field."""
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of modulator states, paddings and inputs on the real simulation against direct Fourier sums in the published coordinates"
BOUNDS = {
    "quick": "every mirror pattern of all devices up to 3x3 x 4 paddings x 2 to 10 inputs of 10 kinds, every phase pattern over 5 phases on 2x2, 3x1 and 1x3, every gray pattern over 3 levels on 2x2 and 3x1, 10 asymmetric patterns of mixed element types on 8 larger shapes, every other pattern written in place into the array the device holds, 4 presets x 2 paddings, two unit systems; both precisions",
    "thorough": "also 4x3, 3x4, 4x1, 1x4, 5x2 devices, 3-level 3x2 phase patterns, 16 paddings, all 10 inputs everywhere, 4 paddings of the presets"}
RULE = "state = (device shape, padding, input, modulator state); transition = one propagation compared with the direct sums; an outcome is a distinct image-plane field"
ASSUMPTIONS = ["fields are compared to 2e-5 of the largest amplitude in 32 bit, 1e-9 in 64 bit"]
SHARDS = 4


def cases(env):
    import opticcase
    return opticcase.cases(env)


def judge(env, sim, d, pad, E, T, kind, what):
    import numpy as np
    ein = d.embed(E, *pad)
    out = d.embed(E * T, *pad)
    img = d.to_image(out, *pad)
    peak = float(np.max(np.abs(E))) or 1.0
    small = 8 if E.size > 1000 else 1
    big = d.px ** 2 / d.sf * float(np.sum(np.abs(E)))
    s_img = max(float(np.max(np.abs(img))), big / np.sqrt(E.size) if E.size > 64 else big)
    for name, want, scale in (("input", ein, peak), ("output", out, peak), ("image_plane", img, s_img)):
        f = getattr(sim, name + "_field")
        env.check(isinstance(f, np.ndarray) and f.dtype == env.cplx, lambda: "%s: %s_field is %s" % (what, name, getattr(f, "dtype", type(f))))
        env.close(f, want, "%s: %s_field" % (what, name), scale=scale, tol32=2e-5 * small)
        i = getattr(sim, name + "_intensity")
        env.check(isinstance(i, np.ndarray) and i.dtype == env.real, lambda: "%s: %s_intensity is %s" % (what, name, getattr(i, "dtype", type(i))))
        env.close(i, np.abs(want) ** 2, "%s: %s_intensity" % (what, name), scale=scale ** 2, tol32=4e-5 * small)
    env.outcome_array(img / s_img)


def run_case(env, case):
    import opticcase
    opticcase.run(env, case, judge)
