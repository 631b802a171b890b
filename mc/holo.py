"""Reference holograms in plain double precision."""
import math
import numpy as np


def grating_phase(d, period, theta):
    X, Y = d.fgrid()
    return 2 * math.pi / (period * d.px) * (math.cos(theta) * X + math.sin(theta) * Y)


def ideal(d, period, theta, amp, phase_in, phase_out, negative):
    s = -1.0 if negative else 1.0
    return amp / 2 * (1 + np.cos(grating_phase(d, period, theta) - s * (phase_out - phase_in)))


def random_probability(d, period, theta, amp, phase_in, phase_out, negative, r=10.0):
    s = -1.0 if negative else 1.0
    q = np.arccos(np.clip(np.cos(grating_phase(d, period, theta) - s * (phase_out - phase_in)), -1, 1))
    w = np.arcsin(np.clip(amp, 0, 1))
    return 0.5 * (np.tanh(r * (q + w)) - np.tanh(r * (q - w)))


def decompose(d, E, T, window=None):
    """(amplitude scaled to maximum 1, arg E, arg S, eta, S, error of the state in units of eps)."""
    E = np.asarray(E, complex)
    S = d.spectrum(T)
    size = float(np.sum(np.abs(T)))
    if window is not None:
        S = S * window
        size = size * max(1.0, float(np.max(np.abs(window))))
    S = np.where(np.abs(S) < 1e-13 * size, 0, S)
    with np.errstate(all="ignore"):
        A = np.where(np.abs(E) > 0, np.abs(S) / np.abs(E), 0.0)
        m = float(A.max())
        err = np.where(np.abs(E) > 0, size / np.abs(E), 0.0) / m + 1.0
    return A / m, np.angle(E), np.where(S == 0, 0.0, np.angle(S)), d.px ** 2 / d.sf * d.Nx * d.Ny / m, S, err


def targets(d):
    """name -> (what is passed, value per image-plane sample); spots are named "spot<i>,<j>"."""
    import ref
    X, Y = d.igrid()
    dx, dy = d.sf / (d.Nx * d.px), d.sf / (d.Ny * d.px)
    u, v = X / dx, Y / dy
    pat = (1.0 + np.cos(1.3 * u + 0.4)) * np.exp(1j * (0.8 * u - 1.1 * v + 0.3 * u * v)) * (0.4 + (np.abs(u + 2 * v) % 3))
    real = np.where((u + v) % 2 > 0.5, 1.0, -0.25 * u + 0.1)
    hg = ["HG", 0.4 * dx, -0.3 * dy, 2.0, 1.7 * max(dx, dy), 0, 1]
    lg = ["LG", -0.4 * dx, 0.3 * dy, 2.0, 1.7 * max(dx, dy), 1, 0]

    def S():
        import pySLM2
        return pySLM2
    out = {"pattern": (lambda: pat, pat), "real": (lambda: real, real),
           "hg": (lambda: ref.build(S(), hg), ref.ev(hg, X, Y)[0]), "lg": (lambda: ref.build(S(), lg), ref.ev(lg, X, Y)[0])}
    for i in range(d.Ny):
        for j in range(d.Nx):
            t = np.zeros((d.Ny, d.Nx)); t[i, j] = 2.5
            out["spot%d,%d" % (i, j)] = (lambda t=t: t, t)
    return out


def windows(d):
    import ref
    X, Y = d.fgrid()
    wr = ["WR", 0.2 * d.px, -0.1 * d.px, (d.Nx - 0.7) * d.px, (d.Ny - 0.7) * d.px]
    arr = np.exp(-((X / d.px - 1) ** 2 + (Y / d.px) ** 2) / (d.Nx * d.Ny)) * np.exp(0.4j * X / d.px)

    def S():
        import pySLM2
        return pySLM2
    return {"none": (lambda: None, None), "rect": (lambda: ref.build(S(), wr), ref.ev(wr, X, Y)[0]), "array": (lambda: arr, arr), "number": (lambda: 0.5, np.full((d.Ny, d.Nx), 0.5))}


def beams(d):
    """Input beams of the hologram checks: those of optics.inputs plus partly dark and noisy-phase ones."""
    import optics
    ins = dict(optics.inputs(d))
    jj, ii = np.meshgrid(np.arange(d.Nx), np.arange(d.Ny))
    dark = np.where((ii + 2 * jj) % 4 == 0, 0, 1.0 + 0.2 * ii) * np.exp(1j * (0.7 * jj - ii))
    ins["dark"] = (lambda: dark, dark)
    neg = np.where((ii + jj) % 3 == 0, -1.0, 1.0) * (1 + 0.1 * jj)
    ins["neg"] = (lambda: neg, neg)
    weak = 2e-6 * (1 + 0.2 * jj) * np.exp(1j * (0.5 * ii - 0.9 * jj))                    # weak everywhere (single precision still has its full accuracy)
    ins["weak"] = (lambda: weak, weak)
    wide = np.array([0.04, 1.0, 0.2])[(ii + 2 * jj) % 3] * np.exp(1j * (0.3 * jj + ii))   # bright and weak pixels side by side
    ins["wide"] = (lambda: wide, wide)
    return ins
